"""Writes /verif/MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from dst import table
TECH = {
 'world': 'deterministic simulation: seeded schedules of caller threads with injected interrupts, failing allocations and backend switches, results checked against a reference model',
 'disk': 'deterministic simulation: seeded saves and loads on simulated storage with short, failing and interrupted system calls, full disks, killed writers and torn files, results checked against the history',
 'rand': 'deterministic simulation: the random generator behind a seam (seeded, crafted and replayed states) under seeded schedules, interrupts and failing allocations',
 'plot': 'deterministic simulation: fault injection at every point of the plotting library\'s import, followed by a seeded battery of calls',
 'draw': 'deterministic simulation: seeded schedules of callers that draw, with interrupts and exceptions raised inside the plotting library, every array handed to it checked against the geometry prescribed',
 'verify': 'deterministic simulation: seeded histories of stored files with stale, altered and torn images, failing reads and interrupts, results checked against an independent discrepancy',
}
NOTE = {
 'world': 'Seeded search, no exhaustiveness. Real package, real C extension and numpy; callers are switched at source lines (some runs at bytecodes). Trusts dst/refmodel.py, numpy and CPython.',
 'disk': 'Seeded search, no exhaustiveness. Real package and CPython I/O over a fault-injecting system-call shim; the kernel is trusted to keep what a killed process had written.',
 'rand': 'Seeded search, no exhaustiveness. Real package on numpy\'s legacy generator; statistical bounds are 6 sigma on fixed seeds.',
 'plot': 'Seeded search over a small space of import points and exception types; the plotting library is a stub that records calls.',
 'draw': 'Seeded search, no exhaustiveness. The plotting library is a stub that records calls; nothing is rendered.',
 'verify': 'Seeded search, no exhaustiveness. Discrepancies are recomputed with the reference model or an independent norm.',
}
ENG = dict({c: 'world' for c in ('C01', 'C02', 'C03', 'C04', 'C05', 'C09', 'C10', 'C11', 'C12', 'C13', 'C17', 'C18')},
           C06='disk', C07='disk', C08='disk', C14='rand', C15='plot', C16='verify', C19='draw')
NA = {}
out = {'version': 1, 'setup_cmd': 'python3 -c "from dst import build, table"',
       'checks': [], 'not_applicable': [],
       'notes': 'No hooks in /repo: threads, memory, storage, randomness and imports are reached through Python tracing, LD_PRELOAD, numpy\'s allocator hook, numpy\'s generator state and the import system.'}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
for i in ids:
    if i in table.CHECKS:
        e = ENG[i]
        out['checks'].append({'property': i, 'quick_cmd': 'python3 run.py --prop %s --tier quick' % i,
                              'thorough_cmd': 'python3 run.py --prop %s --tier thorough' % i,
                              'technique': TECH[e], 'level': 'exploration', 'level_note': NOTE[e]})
    else:
        out['not_applicable'].append({'property': i, 'reason': NA[i]})
json.dump(out, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
print(len(out['checks']), 'checks', len(out['not_applicable']), 'not applicable')
