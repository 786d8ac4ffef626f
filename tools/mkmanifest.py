#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
DOC = 'runtime monitoring: random API programs, model-based oracle over the written file'
T = {
    'P01': ('runtime monitoring: random API programs, strict PDF reader as oracle over the written file', 'exploration'),
    'P02': ('runtime monitoring: random API programs, PDF schema oracle over the written file', 'exploration'),
    'P03': ('runtime monitoring: random API programs, content stream grammar oracle', 'exploration'),
    'P05': ('runtime monitoring: differential programs with and without rejected calls', 'exploration'),
    'P06': ('AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer under random API programs', 'exploration'),
    'P07': ('runtime monitoring: differential programs with and without later mutation', 'exploration'),
    'P13': ('AddressSanitizer and UndefinedBehaviorSanitizer under structure-aware font mutation', 'exploration'),
    'P14': ('AddressSanitizer and UndefinedBehaviorSanitizer under structure-aware image and profile mutation', 'exploration'),
    'P17': ('system call fault injection and kill points with a directory state oracle', 'fault_enumeration'),
    'P23': ('runtime monitoring: differential runs in varied environments and histories', 'exploration'),
    'P24': ('ThreadSanitizer under concurrent documents, differential oracle', 'exploration'),
    'P26': ('runtime monitoring: differential programs across the C, C++ and Python interfaces, with sanitizers', 'exploration'),
}
NOTE = {
    'P17': 'Every system call of the writing path is failed and killed in turn; other programs are sampled.',
}
checks, na = [], []
for p in props:
    n = p['id'].lower()
    if not os.path.exists(os.path.join(V, 'checks', n + '.py')):
        na.append({'property': p['id'], 'reason': 'the check for this property is still being built'})
        continue
    t, l = T.get(p['id'], (DOC, 'exploration'))
    checks.append({'property': p['id'], 'quick_cmd': 'python3 lib/run.py ' + n, 'thorough_cmd': 'VERIF_TIER=thorough python3 lib/run.py ' + n,
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': t, 'level': l,
                   'level_note': NOTE.get(p['id'], 'Held on every execution observed; the programs are sampled from VERIF_SEED, not enumerated.')})
m = {'version': 1, 'setup_cmd': 'python3 lib/build.py plain asan pattern tsan', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed; harnesses compile /repo/src into /verif/build. known_findings.json lists findings and repaired defects.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
