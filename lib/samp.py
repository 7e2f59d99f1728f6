"""Weighted sample sets built from small JSON specs (size, kind, seed), plus plain-numpy reference statistics."""
import numpy as np
from hypothesis import strategies as st
from gen import seeds

NAMES = ['x', 'y', 'z', 'omega_m', 'H0', 'a.b', 'w', 'p8']


@st.composite
def specs(draw, min_rows=2, max_rows=60, min_d=1, max_d=4, weights=('unit', 'int', 'float', 'importance', 'zeros'),
          loglikes=None, kinds=('normal', 'corr', 'scaled', 'offset', 'ties', 'walk', 'const')):
    return dict(n=draw(st.integers(min_rows, max_rows)), d=draw(st.integers(min_d, max_d)), seed=draw(seeds),
                kind=draw(st.sampled_from(kinds)), w=draw(st.sampled_from(weights)),
                loglikes=draw(st.booleans()) if loglikes is None else loglikes)


def make(spec):
    """-> samples, weights (None if unit), loglikes (None if absent), names"""
    r = np.random.RandomState(spec['seed'])
    n, d = spec['n'], spec['d']
    x = r.normal(size=(n, d))
    kind = spec['kind']
    if kind == 'corr':
        x = x.dot(r.normal(size=(d, d)) + np.eye(d) * 0.5)
    elif kind == 'scaled':
        x = x * 10. ** r.randint(-6, 7, size=d)
    elif kind == 'offset':
        x = x + r.uniform(-30, 30, size=d)
    elif kind == 'ties':
        x = np.round(x * 2) / 2
    elif kind == 'walk':
        x = np.cumsum(x, axis=0)
    elif kind == 'const':
        x[:, r.randint(d)] = r.choice([0., 1.5, -1e-3])
    w = spec['w']
    if w == 'unit':
        weights = None
    elif w == 'int':
        weights = r.randint(1, 8, size=n).astype(float)
    elif w == 'float':
        weights = r.uniform(0.01, 3, size=n)
    elif w == 'importance':
        weights = np.exp(r.uniform(-8, 0, size=n))
    else:
        weights = r.randint(0, 3, size=n).astype(float)
        weights[r.randint(n)] = 2.
    ll = r.gamma(2, 2., size=n) + 3 if spec['loglikes'] else None
    return x, weights, ll, NAMES[:d]


def ones(w, n):
    return np.ones(n) if w is None else w


def ref_mean(x, w):
    return np.sum(x * w) / np.sum(w)


def ref_cov(cols, w):
    m = [ref_mean(c, w) for c in cols]
    return np.array([[np.sum(w * (a - ma) * (b - mb)) / np.sum(w) for b, mb in zip(cols, m)] for a, ma in zip(cols, m)])
