#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = {
 'C01': 'settings/effect analysis with path-sensitive must-click typestate on modification tickers',
 'C02': 'path-sensitive dataflow: ticker aggregation covers every consulted model',
 'C03': 'effect analysis of serialize functions against all data members (completeness, order, cache marks)',
 'C04': 'type-hierarchy query against the instantiated boost export registrations',
 'C05': 'type-level audit of virtual constructors, copy completeness and registry registrations',
 'C06': 'field-coverage dataflow of comparison operators over sign vectors of their attributes',
 'C07': 'pairing analysis of attribute registrations and visitor traversal',
 'C08': 'typestate of the incremental evaluation protocol including exceptional exits',
 'C09': 'path-sensitive guard analysis at pair contribution call sites',
 'C10': 'accumulator effect analysis: reset, merge, carry-over and linearity in the weight',
 'C11': 'derived-data dependency analysis: invalidation or recomputation on every write of a source',
 'C12': 'effect-before-throw dataflow on all failing paths of configuration methods',
 'C13': 'path-sensitive publication analysis of static reference tables',
 'C14': 'guard analysis of partial operations (division, acos, log, sqrt)',
 'C15': 'forwarding analysis of structure wrappers',
 'C16': 'definite-assignment analysis of static storage per call',
 'C17': 'order-sensitivity analysis of loops over hash containers',
 'C18': 'comparison of effects between the assertion-enabled and assertion-free programs',
 'C19': 'definite-initialization dataflow over all constructors',
 'C20': 'const and escape analysis of structures held by evaluation code',
 'C21': 'must-call and restart dataflow of bond generator configuration',
 'C22': 'constant evaluation of special-value tables and symbolic identity of fallbacks',
 'C23': 'dependency analysis of memoized values against their keys',
 'C24': 'path-sensitive checked-extraction analysis of stream input',
}
checks = []
for pid in sorted(T):
    if not os.path.exists(os.path.join(V, 'rules', pid.lower() + '.py')):
        continue
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s --tier quick' % pid,
                       thorough_cmd='python3 check.py %s --tier thorough' % pid,
                       technique='static analysis: ' + T[pid], level='other',
                       level_note='Decided on the clang AST/CFG of the current sources by an abstract interpreter or query; '
                       'exact rule, assumptions and the exceptions are in DESIGN.md and in the rule docstring.'))
NA = {
 'N01': 'numerical identity of transforms over floating-point data; no static argument bounds the rounding of the library FFT',
 'N02': 'depends on run-time coordinates, tolerances and space-group operations; not decidable from program structure',
 'N03': 'completeness of the enumeration is an arithmetic fact about all real lattices, beyond dataflow or type reasoning',
 'N04': 'agreement with physical formulas is a numerical property of run-time values',
 'N05': 'a continuous error bound over all widths and distances needs numerical analysis, not program analysis',
}
have = {c['property'] for c in checks}
for pid in sorted(T):
    if pid not in have:
        NA[pid] = 'check not built yet'
M = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(M, json.load(open('/root/.vp/MANIFEST.schema.json')))
for pid in have:
    e = os.path.join(V, 'evidence', pid + '.json')
    if os.path.exists(e):
        jsonschema.validate(json.load(open(e)), json.load(open('/root/.vp/EVIDENCE.schema.json')))
print(len(checks), 'checks')
