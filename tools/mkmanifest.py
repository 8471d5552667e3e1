#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of notes below."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NOTES = {
 'C01': ('property-based testing against independent truth tables', 'All 36 models and every generating entry point, random and boundary shapes (up to beyond 127 latent dimensions).'),
 'C02': ('property-based testing against exact enumeration / convolution', 'Probabilities compared to 1e-6 or better with an enumeration over inner products.'),
 'C03': ('property-based testing: algebraic identity over all model names, aliasing checks', 'All 36 names and unknown names; data given or shape only.'),
 'C04': ('property-based testing: brute-force conditional vs flip threshold located under an injected uniform', 'Single-site flip probabilities located to 1e-6; random source of numpy replaced by a constant.'),
 'C05': ('property-based testing of stacked machines: brute-force joint density vs flip threshold under an injected uniform', 'As C04; up to two parents per matrix.'),
 'C06': ('property-based testing: exact-posterior start, invariance of the enumerated posterior', 'Statistical: bounds of 6.5 standard deviations over replicated rows or machines.'),
 'C07': ('property-based testing against the closed form on reference counts', 'Exact to 1e-9.'),
 'C08': ('stateful property-based testing: invariant over traces of randomly configured histories', 'All model families except the unbounded one.'),
 'C09': ('model-based testing: event log vs reference scheduler, scripted lambda sequences', 'Update functions are user-assigned stand-ins, a documented use of the attribute.'),
 'C10': ('stateful property-based testing: records vs states of runs stopped at each sweep', 'Assumes runs of the same machine under the same random seed coincide up to the last common sweep.'),
 'C11': ('property-based testing: each reconstruction technique vs its definition', 'Records and states are set directly or sampled.'),
 'C12': ('property-based testing: max over active set, exact expectation by enumeration', 'Reliabilities in any order, background smallest.'),
 'C13': ('property-based testing: brute-force conditional vs flip threshold under an injected uniform', 'As C04.'),
 'C14': ('property-based testing against a literal greedy reference', 'Exact to 1e-6.'),
 'C15': ('property-based testing against a reference clean-up, idempotence, automatic clean-up histories', 'Both orders of comparing dimensions are accepted where the statement leaves them open.'),
 'C16': ('property-based testing: validity predicates and frequency bounds', 'Frequencies: 6.5 standard deviations.'),
 'C17': ('property-based testing: validity predicates and frequency bounds', 'Frequencies: 6.5 standard deviations.'),
 'C18': ('property-based testing against exact probabilities, residual of the inversion', 'All 36 models.'),
 'C19': ('property-based testing: brute-force conditionals vs thresholds under an injected uniform, definitions', 'As C04, C07, C11.'),
 'C20': ('stateful property-based testing: invariants at every sweep, records vs prefix runs', 'Correctness of the birth/death moves is not claimed, only the stated consistency.'),
 'C21': ('property-based testing of the drivers: recomputation from returned means, call log of the grid', 'The process pool of the grid search is replaced by a serial stand-in.'),
 'C22': ('property-based testing against definitions', 'Exact up to floating point.'),
 'C23': ('stateful differential testing: machine with a history vs freshly built twin', 'The twin is built through the public interface from the current state.'),
 'C24': ('property-based testing: structural predicate over randomly assembled machines', 'Two or three axes, stacks of layers.'),
}
COMMON = (' Exploration of generated inputs, no exhaustive guarantee. Runs the Python bodies of the '
          'numba functions (NUMBA_DISABLE_JIT=1), so effects of compilation are not covered.')
checks = []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    tech, note = NOTES[pid]
    checks.append({'property': pid, 'quick_cmd': 'bash check.sh %s quick' % pid,
                   'thorough_cmd': 'bash check.sh %s thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': tech, 'level': 'exploration', 'level_note': note + COMMON})
man = {'version': 1, 'setup_cmd': 'bash check.sh selftest', 'checks': checks, 'not_applicable': [],
       'notes': 'No hooks in /repo. known_findings.txt lists repaired defects (fixed: entries).'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
