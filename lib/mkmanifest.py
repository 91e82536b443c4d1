"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C07': ' A second recording runs under AddressSanitizer and UBSan, a third one under ThreadSanitizer with one thread per trace.',
 'C08': ' Heap calls are counted by the harness (malloc and free hooks) and are part of the recorded event.',
 'C23': ' Two builds run the same scripts; TracePair.tla is the product of the two machines.',
}
checks = []
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    checks.append({
        'property': i,
        'quick_cmd': './check ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough ./check ' + i,
        'technique': 'TLA+ specification checked with TLC; scripts generated from it are run on the real library and the recorded traces are validated against it by TLC',
        'level': 'model_checking',
        'level_note': 'Every recorded call is checked by TLC against the specification, whose finite instances are model checked exhaustively where the property has one (DESIGN.md). '
                      'Real arguments are sampled; numerical comparisons have the tolerances stated in spec/. Trusts TLC, the Java double arithmetic behind R64.tla and the recording harness.' + NOTE.get(i, ''),
    })
json.dump({'version': 1, 'setup_cmd': 'python3 lib/setup.py', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: the harness uses the public API. TLA+ with TLC; see DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
