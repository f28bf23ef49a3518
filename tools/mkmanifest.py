"""Regenerates MANIFEST.json from the checks that exist."""
import json
from pathlib import Path

here = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (here / 'properties.jsonl').open()]
T = {
    'P01': 'differential monitor: real CPython argument binding as oracle over exhaustive small and seeded random calls',
    'P02': 'differential monitor: real CPython calls as oracle over exhaustive small and seeded random calls',
    'P03': 'differential monitor: functools.partial of real functions as oracle over bind chains, structural monitors on residuals',
    'P04': 'reference-model monitor over random overload sets',
    'P05': 'reference-model monitor over exhaustive small and mutated parameter lists, inspect.Signature cross-check',
    'P06': 'algebraic-law monitor plus independent canonical form over pools of values',
    'P07': 'runtime monitor of hash / equality consistency over pools of structurally equal values',
    'P08': 'round-trip monitor (pickle, copy) within and across real processes',
    'P09': 'round-trip monitor: eval(repr) on generated and standard library signatures',
    'P10': 'round-trip monitor: str parsed by the Python parser',
    'P11': 'differential monitor: inspect.signature as oracle over generated user modules',
    'P12': 'differential monitor: bound callables vs bind of the unbound signature, and real calls',
    'P13': 'translation-style runtime monitor: mypy semantic analysis of the same stubs as oracle over all reachable callables',
    'P14': 'runtime monitor: canonical forms of mypy types vs exposed annotations over all reachable callables',
    'P15': 'runtime monitor: constructors along mypy\'s MRO vs class signatures',
    'P16': 'runtime monitor with canaries (audit hooks, touched-attribute traps) over all reachable and hostile objects',
    'P17': 'differential runs over request orders, hash seeds, cache provenance; recorded dumps compared',
    'P18': 'thread stress with tiny switch interval and injected yields; results compared with a sequential run',
    'P19': 'crash-point and corruption injection on cache files, dumps compared',
    'P20': 'fault injection on file operations while caches are written, warnings and dumps compared',
    'P21': 'stress of concurrent cold imports with injected delays, dumps compared',
    'P22': 'fault injection: helper processes killed at points of the build under each start method',
    'P23': 'audit-hook monitor of side effects and state snapshots',
    'P24': 'snapshot monitor over random operation histories',
}
LEVEL = {'P19': 'fault_enumeration', 'P20': 'fault_enumeration',
         'P22': 'fault_enumeration'}
NOTE = ('Held on the executions reported in the evidence; trusts CPython '
        '3.12, the monitors in /verif and, where named, the oracle '
        'library. Nothing is claimed about inputs the workload never made.')
NA = {}
checks, missing = [], []
for p in props:
    pid = p['id']
    if (here / 'checks' / f'{pid.lower()}.py').exists() and pid not in NA:
        checks.append({
            'property': pid, 'quick_cmd': f'./check {pid}',
            'thorough_cmd': f'./check {pid} thorough',
            'technique': T[pid], 'level': LEVEL.get(pid, 'exploration'),
            'level_note': NOTE})
    else:
        missing.append({'property': pid,
                        'reason': NA.get(pid, 'check not built yet')})
manifest = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
            'not_applicable': missing,
            'notes': 'No hooks in /repo: every monitor observes the public '
                     'API or the process boundary. See DESIGN.md.'}
(here / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
