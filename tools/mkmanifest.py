#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of implemented checks."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
src = ''
for d, _, fs in os.walk(os.path.join(root, 'harness')):
    for f in fs:
        if f.endswith('.go'):
            src += open(os.path.join(d, f)).read()
have = set(re.findall(r'ID:\s+"(C\d\d)"', src))
T = {
 'C10': 'property-based testing of concurrent programs under the race detector, with per-goroutine reference models',
 'C15': 'property-based testing with a live-heap bound as oracle',
 'C12': 'property-based testing, differential against encoding/json and decode-and-compare',
 'C13': 'property-based testing, round trip through proto/prototext',
 'C16': 'property-based testing with injected impossible counts',
 'C17': 'property-based testing over constructor configurations with injected measuring failures',
 'C20': 'stateful property-based testing with reference snapshots, plus concurrent serving under the race detector',
 'C21': 'property-based testing with HTML tokenisation as oracle',
 'C23': 'property-based testing with fault injection and an event log',
 'C26': 'property-based testing with fault injection in handlers',
 'C27': 'property-based testing with metric deltas, sequential and concurrent under the race detector',
 'C28': 'end-to-end property-based testing over HTTP/1.1 and HTTP/2',
 'C30': 'property-based testing of arguments before and after calls, and differential histories with buffers that are overwritten',
 'C31': 'property-based testing of descriptions: injectivity over pairs of calls, and values read back from the text',
 'C29': 'property-based testing of scripts with drawn deviations',
}
default = 'stateful property-based testing against a reference model (rapid generators and shrinking)'
note = ('Random search with shrinking: no violation among the cases generated in the run (counts, classes and samples in the evidence file); '
        'nothing is proved for cases not generated. Trusts the Go toolchain, rapid, and the reference model in harness/.')
checks = [{
    'property': p['id'],
    'quick_cmd': './check.sh run ' + p['id'],
    'thorough_cmd': './check.sh run ' + p['id'],
    'technique': T.get(p['id'], default),
    'level': 'exploration',
    'level_note': note,
} for p in props if p['id'] in have]
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': [{'property': p['id'], 'reason': 'check under construction'} for p in props if p['id'] not in have],
    'notes': 'No hooks in /repo: all checks are black-box and build against the exported API (plus internal/mockreader) from /repo\'s working tree.',
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
