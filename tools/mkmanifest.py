#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: claims every property with a check function in props/, lists the others."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
have = set()
for m in os.listdir(os.path.join(ROOT, 'props')):
    if m.endswith('.py'): have |= set(re.findall(r'^def (C\d\d)\(', open(os.path.join(ROOT, 'props', m)).read(), re.M))
GEN = ('Holds for every real value of the inputs (agreement of value graphs in a prime field; error probability per comparison below 2^-100). Trusts: clang front end, the abstract interpreter, '
       'the models of Eigen inverse/eigen/SVD kernels as uninterpreted operations, real arithmetic instead of rounding. ')
NOTE = {}
for i in range(1, 12): NOTE['C%02d' % i] = GEN + 'Matrix sizes are the fixed ones of the API; point arrays of 1, 3 and 4 rows.'
NOTE['C03'] += ' The last 1.5e-7 rad before a half turn are decided only at the half turn itself.'
NOTE['C12'] = GEN + 'Wrapping loops are followed for seven turns on either side; a loop form is analysed by unrolling.'
for i in range(13, 21): NOTE['C%02d' % i] = GEN + 'Every factor and node class compiled into the library, both creation orders.'
for i in (21, 22, 23, 24, 25, 26, 27, 28, 37): NOTE['C%02d' % i] = GEN + 'Values, residuals, Jacobians and information matrices are unconstrained; graph shapes are a fixed family (see DESIGN.md) and iteration counts up to three.'
NOTE['C36'] = GEN + 'Ids out of range on both sides of several graphs.'
REG = GEN + 'Point values, weights, covariances and transforms are unconstrained; numbers of points, planes and poses are a fixed family (see DESIGN.md).'
for i in (29, 30, 31, 32, 33, 40, 41): NOTE['C%02d' % i] = REG
NOTE['C42'] = REG + ' <random> is replaced by unconstrained draws; rotations of the last pose below a quarter turn (C03 decides the logarithm).'
NOTE['C34'] = GEN + 'pybind11 is replaced by a recording front end that applies every bound callable to symbolic arguments; the documented meaning is the reference list in harness/bind.cpp.'
NOTE['C35'] = GEN + 'Lifetime of every accessor result is tracked as a typestate of abstract objects in the contexts of the harness; return policies are read off the binding calls.'
TECH = 'abstract interpretation of LLVM IR with algebraic value numbering against specification graphs'
T2 = {'C12': 'abstract interpretation of LLVM IR, interval and congruence domains', 'C02': 'abstract interpretation of LLVM IR, algebraic value numbering, series and interval domains',
      'C03': 'abstract interpretation of LLVM IR, algebraic value numbering, series and interval domains', 'C37': 'ownership and typestate analysis over abstract heap objects in LLVM IR',
      'C36': 'bounds and typestate analysis by abstract interpretation of LLVM IR', 'C35': 'ownership and lifetime typestate analysis over abstract objects in LLVM IR',
      'C34': 'abstract interpretation of the binding code with a recording front end, value-graph comparison'}
NA = {'C38': 'Convergence quantifies over basins of attraction and iteration histories of a nonlinear map; no static argument in reach bounds them. The step each iteration takes is decided by C24, C25, C28, C30 and C32.',
      'C39': 'Round-off accumulation needs error bounds on every intermediate over unbounded ranges (and on libm and Eigen kernels); the analysis works over the reals. Thresholds between formulas are decided by C02 and C03.'}
checks = [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s thorough' % p, 'technique': T2.get(p, TECH), 'level': 'other', 'level_note': NOTE[p]} for p in props if p in have]
na = [{'property': p, 'reason': NA.get(p, 'No check built yet.')} for p in props if p not in have]
json.dump({'version': 1, 'setup_cmd': "python3 -c \"import sys; sys.path.insert(0,'engine'); import pipe; pipe.bootstrap()\"", 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: nothing of /repo is executed. See DESIGN.md.'}, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
