BASE = [
    'zsv (this repository): graph extraction, operator contracts (zsv/graph.py), normaliser (zsv/norm.py), '
    'case analysis (zsv/prove.py); each operator contract is exercised against the real runtime by the replays',
    'z3 (z3-new) on the region goals',
    'Lean 4 + Mathlib for the lemma schemas in lean/',
    'TensorFlow: graph construction, gradient registry and kernels implement the operator contracts',
    'CPython, NumPy',
]
COMMON = [
    'Arithmetic is over the real numbers / mathematical integers: rounding, overflow and underflow of floats '
    'are not modelled (except where a property is about them).',
    'Float literals denote the decimal or named constant they round from; numpy tiny / nextafter(1,0) guards '
    'are idealised to the open interval end points.',
    'Divisions and logarithms are considered where defined (non-zero / positive arguments).',
    'Ranks, argument kinds and option combinations are enumerated (listed as configurations); sizes of axes '
    'and all element values are universally quantified on the dynamic-shape configurations.',
]
