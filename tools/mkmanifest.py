"""Writes MANIFEST.json for the checks that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'C20': 'a pure function of data and parameters computed twice: no schedule, clock, entropy, fault or I/O enters (the parallel part of native determinism is C04)',
 'C21': 'sequential pure computation; nothing a simulator controls can influence it',
 'C23': 'sequential in-memory container without I/O, threads or time; histories of operations alone are input generation',
 'C24': 'pure functions of two points',
 'C25': 'for deterministic sequential algorithms the result is a pure function of the input (randomised and parallel ones: C04, C09, C10)',
 'C26': 'pure conversion between data structures',
 'C27': 'pure deterministic function of the graph',
 'C28': 'pure numerical formulas',
}
checks, na = [], []
for p in props:
    path = os.path.join(V, 'checks', p['id'].lower() + '.py')
    if os.path.exists(path):
        m = importlib.import_module('checks.' + p['id'].lower())
        checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': getattr(m, 'TECHNIQUE', 'deterministic simulation with fault injection: seeded search over schedules and faults'),
                       'level': getattr(m, 'LEVEL', 'exploration'),
                       'level_note': getattr(m, 'NOTE', 'Sampled schedules and faults; a clean batch is evidence, not proof. Trusts the simulator runtime and sequential consistency between switches.')})
    else:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')})
man = {'version': 1, 'setup_cmd': 'python3 simlib/build.py', 'checks': checks, 'not_applicable': na,
       'hooks': {'guard': 'none needed', 'enable': 'simlib/build.py compiles the unmodified sources of the working tree with instrumentation and replaces system functions at link time; no hook exists in the repository', 'source_commits': []},
       'notes': 'One entry point: python3 run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE].'}
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
