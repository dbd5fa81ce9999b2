"""Regenerates MANIFEST.json from the registry (run by hand)."""
import json
import os
import re
HERE = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(HERE, 'harness/main.py')).read()
reg = dict(re.findall(r"'(C\d\d)': '(\w+)'", src))
have = [p for p in sorted(reg) if os.path.exists(os.path.join(HERE, 'harness', reg[p] + '.py'))]
NOTE = {
 'C01': 'cascade machine explored exhaustively over all monotone scale banks up to a bound; TLC-generated paths compared with list/array/dict outputs',
 'C02': 'same machine; metadata rows consumed by TLC against the generated paths',
 'C03': 'padding/window arithmetic explored exhaustively for all lengths and supports up to a bound; observed grids consumed by TLC',
 'C04': 'TLC emits the chain of operations that defines each coefficient; an independent float64 interpreter executes it',
 'C05': 'bank arithmetic explored exhaustively; recorded filter banks consumed by TLC clause by clause',
 'C06': 'width-first machine explored exhaustively up to a bound; outputs and metadata consumed by TLC',
 'C07': 'TLC emits the chains along time and frequency; an independent float64 interpreter executes them',
}
M = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
EXTRA = os.path.join(HERE, 'manifest_notes.json')
if os.path.exists(EXTRA):
    NOTE.update(json.load(open(EXTRA)))
for p in have:
    M['checks'].append({
        'property': p, 'quick_cmd': './run.sh %s quick' % p, 'thorough_cmd': './run.sh %s thorough' % p,
        'technique': 'TLA+ state-machine specification: TLC model checking, specification-generated behaviours replayed on the code, and TLC validation of recorded traces',
        'level': 'model_checking', 'level_note': NOTE.get(p, '')})
M['not_applicable'] = [{'property': p, 'reason': 'check not built yet'} for p in sorted(reg) if p not in have]
json.dump(M, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(have)
