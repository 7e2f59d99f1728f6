"""Samples with known shapes and hard limits, and the documented parameter ranges used for densities."""
import math
import numpy as np
from hypothesis import strategies as st
from gen import seeds
from getdist import MCSamples

KINDS = ['normal', 'skew', 'uniform', 'double', 'edge']


def draw_param(r, n, kind):
    """-> samples, natural hard limits"""
    if kind == 'normal':
        return r.normal(size=n), (None, None)
    if kind == 'skew':
        return r.exponential(size=n), (0., None)
    if kind == 'uniform':
        return r.uniform(0, 1, size=n), (0., 1.)
    if kind == 'double':
        return r.normal(size=n) * 0.4 + r.choice([-2, 2], size=n), (None, None)
    x = np.abs(r.normal(size=n))
    return -x, (None, 0.)


@st.composite
def sample_specs(draw, d=1, max_n=200):
    return dict(seed=draw(seeds), n=draw(st.integers(30, max_n)), kinds=[draw(st.sampled_from(KINDS)) for _ in range(d)],
                w=draw(st.sampled_from(['unit', 'int', 'float'])), lims=[draw(st.sampled_from(['natural', 'natural', 'none', 'far', 'near'])) for _ in range(d)],
                scale=[draw(st.sampled_from([1., 1., 0.01, 300.])) for _ in range(d)], shift=[draw(st.sampled_from([0., 0., 5., -40.])) for _ in range(d)],
                rho=draw(st.sampled_from([0, 0, 0.05, 0.4, -0.6, 0.8])), like=draw(st.booleans()))


def make(c):
    r = np.random.RandomState(c['seed'])
    n = c['n']
    cols, lims = [], []
    for k, kind in enumerate(c['kinds']):
        x, lim = draw_param(r, n, kind)
        if k == 1 and c['rho'] and lim == (None, None):
            u = (cols[0] - cols[0].mean()) / cols[0].std()
            x = math.sqrt(1 - c['rho'] ** 2) * x + c['rho'] * u * x.std()
        cols.append(x)
        lims.append(lim)
    out = {}
    raw = []
    for k, (x, lim) in enumerate(zip(cols, lims)):
        sd = x.std()
        a, b = c['scale'][k], c['shift'][k]
        mode = c['lims'][k]
        if mode == 'none':
            lim = (None, None)
        elif mode == 'far':
            lim = (x.min() - 30 * sd, x.max() + 30 * sd)
        elif mode == 'near':
            lim = (x.min() - 0.02 * sd, x.max() + 0.02 * sd)
        raw.append(x * a + b)
        # hard limits contain all samples whatever the rounding
        lo = None if lim[0] is None else min(lim[0] * a + b, raw[-1].min())
        hi = None if lim[1] is None else max(lim[1] * a + b, raw[-1].max())
        out['pq'[k]] = [lo, hi]
    w = dict(unit=np.ones(n), int=r.randint(1, 6, size=n).astype(float), float=r.uniform(0.2, 2, size=n))[c['w']]
    L = r.gamma(2, 1, size=n) + 2 if c['like'] else None
    return np.array(raw).T, w, L, out


def mc(x, w, L, ranges, **settings):
    return MCSamples(samples=x.copy(), weights=w.copy(), loglikes=None if L is None else L.copy(), names=['p', 'q'][:x.shape[1]], ranges=ranges,
                     settings=dict(settings, ignore_rows=0))


# ---------- reference, by the documented definitions

class Range:
    pass


def quantile(v, w, f):
    o = np.argsort(v, kind='stable')
    cs = np.cumsum(w[o])
    return v[o][min(np.searchsorted(cs, w.sum() * f), len(v) - 1)]


def ref_range(v, w, lim, rc=0.001, nd=None):
    p = Range()
    mean = np.sum(v * w) / w.sum()
    p.err = math.sqrt(np.sum(w * (v - mean) ** 2) / w.sum())
    p.lo, p.hi = quantile(v, w, rc), quantile(v, w, 1 - rc)
    pts = [v.min()] + [quantile(v, w, k) for k in np.linspace(0.1, 0.9, 9)] + [v.max()]
    gaps = np.array([pts[i + 4] - pts[i] for i in range(7)])
    s = gaps.min() / 1.049
    p.sigma = s if np.all(gaps > p.err * 1.049) and np.all(gaps < 1.5 * s) else min(p.err, s)
    if nd is not None:
        p.lo = min(max(p.lo - p.err, nd[0]), p.lo)
        p.hi = max(min(p.hi + p.err, nd[1]), p.hi)
    sm = 0.4 * p.sigma
    p.bot = lim[0] is not None and not (p.lo - lim[0] > 2 * sm and v.min() - lim[0] > sm)
    p.top = lim[1] is not None and not (lim[1] - p.hi > 2 * sm and lim[1] - v.max() > sm)
    p.lo = lim[0] if p.bot else p.lo - 2 * sm
    p.hi = lim[1] if p.top else p.hi + 2 * sm
    border = 0.1 * (p.hi - p.lo)
    p.x0 = min(v.min(), p.lo) - (0 if p.bot else border)
    p.x1 = max(v.max(), p.hi) + (0 if p.top else border)
    return p
