"""Lemma schemas proved in lean/*.lean, re-checked by the Lean kernel on use."""
import os
import subprocess
import time
from .case import Obl

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def check(label, seed, tier, file, lemmas):
    o = Obl('%s :: lean accepts %s' % (label, ', '.join(lemmas)))
    o.kind = 'lemma'
    t0 = time.time()
    p = os.path.join(HERE, 'lean', file)
    src = open(p).read()
    missing = [l for l in lemmas if 'theorem %s ' % l not in src]
    try:
        r = subprocess.run(['lean', p], capture_output=True, text=True, timeout=300)
        ok = r.returncode == 0 and 'sorry' not in r.stdout and not missing
        o.status = 'proved' if ok else 'error'
        o.detail = '' if ok else (r.stdout + r.stderr)[-800:] + str(missing)
        o.backend = 'Lean 4 kernel, Mathlib'
    except Exception as e:
        o.status, o.detail = 'error', repr(e)
    o.time_s = time.time() - t0
    return [o]
