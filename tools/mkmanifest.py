#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
}
FP = ('Every path of the real code (LLVM IR of the current sources) is executed with symbolic model responses, guess and tolerance, for the sizes, '
      'iteration counts and fault kinds listed as bounds in the evidence; doubles with exact IEEE comparisons and special values, arithmetic by a sound '
      'abstraction (bit-blasted only to refute spurious counterexamples). ')
RE = ('The real code (LLVM IR of the current sources) is executed with symbolic rational numbers: identities hold for every real value outside of the '
      'excluded zero denominators, not up to rounding; sizes and iteration counts as listed in the evidence. ')
TR = 'Trusted: rustc, irsym (the executor), z3; every violation is confirmed by a native run. '
NOTES = {
    'C01': FP + TR,
    'C02': FP + TR + 'Finite tolerance.',
    'C03': FP + TR,
    'C04': FP + 'Undamped bounds over doubles; step limits and damped iterates over the reals with a fixed jacobian (the residuals make the step anything). '
           + TR,
    'C05': FP + TR + 'Sizes 1 to 3.',
    'C06': RE + 'The perturbation formula over doubles. ' + TR,
    'C07': RE + TR + 'The relative derivative is not claimed where left + right = 0.',
    'C08': RE + TR,
    'C09': RE + TR,
    'C10': RE + TR + 'Sizes 1 and 2; the comparison jacobian / inverse for size 2 with some numbers fixed.',
    'C11': FP + RE + TR,
    'C12': FP + RE + TR,
    'C13': FP + TR + 'A failed first resolution is one of those the fault kinds of the bounds give.',
    'C14': FP + TR + 'The text written in the log is C22.',
    'C15': FP + TR,
    'C16': FP + TR + 'The parser of minidom (a dependency) and the file are replaced by a symbolic document tree; the replays use the real parser on a written file.',
    'C17': FP + TR,
    'C18': FP + RE + TR,
    'C19': RE + TR,
    'C20': FP + RE + TR,
    'C21': RE + TR,
    'C22': FP + TR + 'Numbers in the text are compared as values (the digits printed by the standard library are not modelled); the file is a stub keeping its content, the replays read the real file.',
    'C23': FP + TR,
}
m = dict(
    version=1,
    setup_cmd='python3-vt checks/setup.py',
    hooks=dict(guard='none', enable='no hook: the harnesses use the public interface of the crate', source_commits=[]),
    checks=[], not_applicable=[],
    notes='Checks print UNDECIDED / INCOMPLETE lines for what the solver or the time did not settle; ./replay.sh FILE runs a counterexample natively.')
for p in props:
    i = p['id']
    if i in NA:
        m['not_applicable'].append(dict(property=i, reason=NA[i]))
        continue
    m['checks'].append(dict(
        property=i,
        quick_cmd='python3-vt checks/run.py %s quick' % i,
        thorough_cmd='python3-vt checks/run.py %s thorough' % i,
        evidence_file='evidence/%s.json' % i,
        technique='symbolic execution of the LLVM IR of the code, SMT (z3)',
        level='model_checking',
        level_note=NOTES[i].strip()))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
