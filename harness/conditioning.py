"""Where binary floating point cannot carry a simplex method: the rounding error of the canonical form of some
basis exceeds the package's zero tolerance (1e-10), so that zero and nonzero entries cannot be told apart.
Only consulted after a mismatch; such programs are outside the domain stated in properties.jsonl."""
import itertools
import random

import numpy as np

ZERO = 1e-10
EPS = 2.3e-16


def worst(A, scale):
    """Largest rounding error of a canonical form over the bases of [A | I] (a sample when there are many)."""
    M = np.c_[A, np.eye(A.shape[0])]
    m, n = M.shape
    if not m:
        return 0.0
    cs = itertools.combinations(range(n), m)
    cs = list(itertools.islice(cs, 6001))
    if len(cs) > 6000:
        rng = random.Random(7)
        cs = [tuple(sorted(rng.sample(range(n), m))) for _ in range(6000)]
    sv = np.linalg.svd(M[:, np.array(cs)].transpose(1, 0, 2), compute_uv=False)
    r = sv[:, 0] / np.maximum(sv[:, -1], 1e-300)
    r = r[r < 1e12]                      # the rest are singular bases, which are never entered
    return float(r.max(initial=1.0)) * scale * EPS


def ill(lp):
    A = np.array([[float(v) for v in r] for r in lp.A]).reshape(lp.m, lp.n)
    scale = max([1.0] + [abs(float(v)) for r in lp.A for v in r] + [abs(float(v)) for v in list(lp.b) + list(lp.c)])
    return worst(A, scale) > ZERO or worst(A.T, scale) > ZERO
