import numpy as np
from hypothesis import strategies as st
from vlib import case, close, equal
import samp
from gen import seeds
from getdist.chains import WeightedSamples
from getdist import MCSamples

RULE = ('weighted sample sets with ties and extreme weights, tail fractions including exact sample boundaries, sub-ranges '
        'of rows and caller weights; non-trivial: non-unit weights, >=3 rows, 0<tail<1')
ASSUMPTIONS = ['tail fractions within 1e-9 of a sample boundary may go to either neighbour']

fracs = st.one_of(st.floats(0.0005, 0.9995), st.sampled_from([0.025, 0.05, 0.16, 0.32, 0.5, 0.25, 0.1, 0.84]))


def valid(v, x, w, frac, upper, what):
    """v is a sample value with at most frac of the weight strictly beyond it and at least frac at or beyond it"""
    tot = w.sum()
    eps = 1e-9 * tot
    assert np.any(x == v), '%s: %r is not a sample value' % (what, v)
    if upper:
        beyond, incl = w[x > v].sum(), w[x >= v].sum()
    else:
        beyond, incl = w[x < v].sum(), w[x <= v].sum()
    assert beyond <= frac * tot + eps, '%s: weight %g beyond limit exceeds %g' % (what, beyond / tot, frac)
    assert incl >= frac * tot - eps, '%s: weight %g at or beyond limit below %g' % (what, incl / tot, frac)


@st.composite
def cases(draw):
    return dict(spec=draw(samp.specs(max_rows=40)), fracs=draw(st.lists(fracs, min_size=1, max_size=4)),
                start=draw(st.integers(0, 5)), end=draw(st.none() | st.integers(-5, -1)), wseed=draw(seeds))


@case(cases(), quick=2500, shards=2)
def tail_counting(c, t):
    x, w0, ll, names = samp.make(c['spec'])
    n, d = x.shape
    w = samp.ones(w0, n)
    t.nontrivial(w0 is not None and n > 2)
    s = WeightedSamples(samples=x, weights=None if w0 is None else w0.copy(), loglikes=ll, min_weight_ratio=-1)
    j = c['wseed'] % d
    col = x[:, j]
    vec = np.cos(np.arange(n) * 1.7)
    fr = np.array(c['fracs'])
    for target, vals in ((j, col), (col.copy(), col), (vec, vec), (s.initParamConfidenceData(j), col)):
        for upper in (False, True):
            got = s.confidence(target, fr, upper=upper)
            equal(got.shape, fr.shape, 'number of limits')
            for v, f in zip(got, fr):
                valid(v, vals, w, f, upper, 'limit')
                assert s.confidence(target, float(f), upper=upper) == v, 'single limit differs from array of limits'
    # two-tail: (1-conf)/2 in each tail
    for f in fr:
        lo, hi = s.twoTailLimits(j, float(f))
        assert lo <= hi, 'two-tail limits out of order'
        valid(lo, col, w, (1 - f) / 2, False, 'two-tail lower')
        valid(hi, col, w, (1 - f) / 2, True, 'two-tail upper')
    # nesting
    order = np.sort(fr)
    lows = s.confidence(j, order)
    assert np.all(np.diff(lows) >= 0), 'lower limits not increasing with tail fraction'
    ups = s.confidence(j, order, upper=True)
    assert np.all(np.diff(ups) <= 0), 'upper limits not decreasing with tail fraction'
    # part of the chain only, and other weights
    start, end = c['start'], c['end']
    sub = np.arange(n)[start:end]
    w2 = np.random.RandomState(c['wseed']).uniform(0.1, 2, size=n)
    if len(sub) and w[sub].sum() > 0:
        t.label('sub-range', start or end)
        for upper in (False, True):
            valid(s.confidence(j, float(fr[0]), upper=upper, start=start, end=end), col[sub], w[sub], fr[0], upper,
                  'sub-range')
            valid(s.confidence(j, float(fr[0]), upper=upper, weights=w2), col, w2, fr[0], upper, 'other weights')
            valid(s.confidence(j, float(fr[0]), upper=upper, start=start, end=end, weights=w2), col[sub], w2[sub],
                  fr[0], upper, 'sub-range, other weights')


@case(cases(), quick=1000)
def symmetries(c, t):
    """mirror image swaps upper and lower; increasing maps, row order, weight scale and repetition do not matter"""
    x, w0, ll, names = samp.make(c['spec'])
    n, d = x.shape
    w = samp.ones(w0, n)
    col = x[:, 0]
    t.nontrivial(n > 2)
    r = np.random.RandomState(c['wseed'])
    perm = r.permutation(n)
    fac = 10 ** r.uniform(-3, 3)
    # keep away from exact sample boundaries
    cum = np.cumsum(w[np.argsort(col, kind='stable')]) / w.sum()
    fr = [f for f in c['fracs'] if np.min(np.abs(cum - f)) > 1e-6 and np.min(np.abs(1 - cum - f)) > 1e-6]
    base = WeightedSamples(samples=x, weights=w.copy(), min_weight_ratio=-1)
    for f in fr:
        for upper in (False, True):
            v = base.confidence(0, f, upper=upper)
            o = WeightedSamples(samples=-x, weights=w.copy(), min_weight_ratio=-1).confidence(0, f, upper=not upper)
            assert o == -v, 'mirrored limit %r, expected %r' % (o, -v)
            o = WeightedSamples(samples=x[perm], weights=w[perm] * fac, min_weight_ratio=-1).confidence(0, f, upper=upper)
            assert o == v, 'permuted/rescaled limit %r, expected %r' % (o, v)
            o = WeightedSamples(samples=x * 2 + 1, weights=w.copy(), min_weight_ratio=-1).confidence(0, f, upper=upper)
            close(o, v * 2 + 1, rtol=1e-12, what='rescaled parameter limit')
            if np.all(w == np.round(w)):
                ix = np.repeat(np.arange(n), w.astype(int))
                o = WeightedSamples(samples=x[ix]).confidence(0, f, upper=upper)
                assert o == v, 'limit with repeated rows %r, expected %r' % (o, v)


@case(cases(), quick=200)
def named_samples(c, t):
    """the same limits through the analysis object, by parameter name"""
    spec = dict(c['spec'])
    spec['n'] = max(spec['n'], 5)
    x, w0, ll, names = samp.make(spec)
    w = samp.ones(w0, len(x))
    if np.any(np.ptp(x, axis=0) == 0):
        return  # fixed parameters are removed by design
    s = MCSamples(samples=x, weights=None if w0 is None else w0.copy(), loglikes=ll, names=names,
                  settings={'ignore_rows': 0, 'min_weight_ratio': -1}, min_weight_ratio=-1.)
    t.nontrivial(w0 is not None)
    for i, nm in enumerate(names):
        for f in c['fracs']:
            for upper in (False, True):
                valid(s.confidence(nm, f, upper=upper), x[:, i], w, f, upper, nm)
            lo, hi = s.twoTailLimits(nm, f)
            valid(lo, x[:, i], w, (1 - f) / 2, False, nm)
            valid(hi, x[:, i], w, (1 - f) / 2, True, nm)
