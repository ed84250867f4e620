"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    pl = plan.PLAN[i]
    note = 'The TLA+ specification is the oracle. '
    if pl.get('mc'):
        note += 'TLC explores %s exhaustively within the constants of the configuration (the algorithms and the state machine satisfy the property); ' % ', '.join(pl['mc'])
    if pl.get('gen'):
        note += 'behaviours of %s are replayed into the real code; ' % ', '.join(pl['gen'])
    note += ('seeded workloads (%s) run on the real code with ASan and UBSan, and TLC validates every recorded call as a step of the '
             'specification (spec/Trace.tla). Bounded: what no generated script reaches is not covered; fixed point logarithms leave a small slack. '
             'Trusted: TLC, compiler, the driver and its recording.') % ', '.join(pl['mix'])
    checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                   'technique': 'explicit TLA+ specification checked with TLC; trace validation and replay of generated behaviours against the real code',
                   'level': 'model_checking', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'hooks': {'guard': 'VGRAM_TRACE', 'enable': 'harness/build.sh compiles /repo/core/src/main/cpp with -DVGRAM_TRACE (and falls back to a build without hooks)',
               'source_commits': ['ec39c01', '4afa35a']},
     'checks': checks, 'not_applicable': [],
     'notes': 'One specification (spec/*.tla) and one runner (tools/check.py) decide all properties; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
