#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
NA = {}
NOTE = ('Bounded: every path of the real code (rustc LLVM IR of /repo, bytes and std) for all values of the symbolic inputs within the '
        'bounds listed in evidence coverage.bounds; z3 decides every branch and assertion; nothing is claimed outside them. Counterexamples are '
        'replayed on the natively built code before they are reported. Trusted: rustc up to LLVM IR, the symbolic executor in engine/, z3, '
        'the RFC 3629 formula standing for core::str::from_utf8, and the reference reader harness/src/refp.rs.')
import jobs
m = {'version': 1, 'setup_cmd': 'python3 tools/run.py setup', 'checks': [], 'not_applicable': []}
q = jobs.quick()
for i in ids:
    if i in NA or i not in q:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check under construction')})
        continue
    m['checks'].append({
        'property': i, 'quick_cmd': 'python3 tools/run.py check %s quick' % i, 'thorough_cmd': 'python3 tools/run.py check %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'symbolic execution of the compiled LLVM IR with z3 (bit-vectors and linear integers), counterexamples replayed natively',
        'level': 'model_checking', 'level_note': NOTE})
m['notes'] = 'No hooks: every harness uses the public API. Known findings and repaired defects: known-findings.txt.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
