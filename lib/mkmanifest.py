"""Writes MANIFEST.json and checks properties.jsonl against it."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = 'Quint specification (exact arithmetic): generated cases replayed into the real code, recorded behaviour validated as a trace of the specification'
C = {
 'C01': (TRACE, 'exploration', 'Every explored SUCCESS is re-decided exactly; nothing is assumed about the code. Trusts Quint, the recording of doubles, and the rounding bound in decode.qnt.'),
 'C02': (TRACE, 'exploration', 'Summary fields recomputed exactly for every explored solve, up to the stated rounding bound.'),
 'C03': (TRACE, 'exploration', 'Each returned certificate is checked in exact arithmetic to within infeas_tol and 2^-45 relative rounding.'),
 'C04': (TRACE, 'exploration', 'Outcome compared with the exactly known status of generated problems.'),
 'C05': (TRACE, 'exploration', 'Prefix families of explored runs; termination is judged by a time limit.'),
 'C06': (TRACE, 'exploration', 'Exact comparison of residuals; the inner iterate is known exactly in the first subproblem only.'),
 'C07': (TRACE, 'exploration', 'The specification is a memo machine: any two solves with the same arguments in a history must agree bit for bit.'),
 'C08': (TRACE, 'exploration', 'All interface combinations, canaries around mapped memory.'),
 'C09': (TRACE, 'exploration', 'The stacking is the specification\'s; agreement of flags is required only where the outcome is determined.'),
 'C10': (TRACE, 'exploration', 'Field by field comparison with the specification\'s ranges; stored parameters are read from the solver objects where their layout allows it.'),
 'C11': (TRACE, 'exploration', 'Which calls are malformed is decided by the specification from the sizes alone.'),
 'C12': (TRACE, 'exploration', 'The printed text is parsed against a grammar of lines; numbers compared to printing precision.'),
 'C13': (TRACE, 'exploration', 'Dyadic data on which double arithmetic is exact, so every product is compared for equality.'),
 'C14': (TRACE, 'exploration', 'Backward error of V dx = r evaluated exactly, row by row, to 2^-42 of the size of the terms (times 1/sigma and the distance to a kink).'),
 'C15': (TRACE, 'exploration', 'Histories on three variables; rounding accumulates along the recorded operations.'),
 'C16': (TRACE, 'exploration', 'Formulas evaluated exactly, compared up to 2^-44 of the size of their terms.'),
 'C17': (TRACE, 'exploration', 'Verdict decided exactly where double arithmetic is exact (ties included), three-valued elsewhere.'),
 'C18': (TRACE, 'exploration', 'Generated shapes and index patterns; aliasing and ownership observed through the storage itself.'),
 'C19': (TRACE, 'exploration', 'Whether the guess satisfies the tolerance is decided in exact arithmetic.'),
 'C20': (TRACE, 'exploration', 'The real algorithm template runs over recording components; each step is re-decided exactly from the recorded iterates and directions.'),
 'C22': ('TLA+ specification of the control flow over arbitrary components, all behaviours of bounded configurations enumerated by TLC (invariants checked on the way) and replayed into the real algorithm template', 'model_checking', 'Exhaustive within the bounds of MCProx.tla (up to 7 Newton steps, 3 proximal iterations), simulated beyond; dyadic values so that every comparison is exact.'),
 'C23': (TRACE, 'exploration', 'Histories over three memory blocks, two groups of owned arrays and four reference structures; all memory and every field compared after each operation.'),
 'C24': (TRACE, 'exploration', 'The memo machine of session.qnt over several objects, nested calls and threads: a call has one outcome, wherever it is made.'),
 'C25': (TRACE, 'exploration', 'The specification has no faulting step and returns to zero memory held; faults are observed by compiler instrumentation, outcomes under two garbage patterns must agree.'),
 'C26': (TRACE, 'exploration', 'The specification is the protocol (typestate) of the components; only calls whose treatment is documented are made.'),
 'C27': (TRACE, 'exploration', 'Matrices L D L\' of integers and powers of two, so that solutions are exact. The external QDLDL package is not installed: a stand-in with its interface takes its place.'),
 'C28': (TRACE, 'exploration', 'The reported time is bracketed by instants recorded by the caller; assumes the clock is not set back during a solve.'),
 'C21': (TRACE, 'exploration', 'NaN placed in every array; hangs are judged by a time limit.'),
}
if __name__ == '__main__':
    props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    checks = [dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
                   technique=C[p][0], level=C[p][1], level_note=C[p][2]) for p in props if p in C]
    na = [dict(property=p, reason='no check built yet') for p in props if p not in C]
    m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
             notes='No hooks in /repo: component types are template parameters of the algorithm, so recording wrappers are plugged in from /verif.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
