import os
import numpy as np
from hypothesis import strategies as st
from vlib import case, close, equal, raises
import samp
from gen import seeds
from getdist.chains import WeightedSamples, Chains
from getdist import MCSamples

RULE = ('integer-weight sets (rows with weight 1..12, optional zero-weight rows after the first) and thin factors from 1 to '
        'beyond the total weight, single and several chains, real weights for random selection; non-trivial: factor>1 and '
        'some weight>1')
ASSUMPTIONS = ['thinning may additionally keep the very first sample (the code does when the factor is at least the '
               'largest weight)', 'random selection is judged by 6-sigma bounds on fixed generator seeds']

weight_lists = st.one_of(st.lists(st.integers(1, 12), min_size=1, max_size=40),
                         st.lists(st.sampled_from([1, 1, 1, 2, 3, 30]), min_size=1, max_size=60),
                         st.lists(st.integers(0, 4), min_size=1, max_size=30).map(lambda l: [1] + l),
                         st.lists(st.just(1), min_size=1, max_size=30))
factors = st.one_of(st.integers(1, 15), st.integers(1, 4), st.integers(10, 60))


def unit_positions(w, f):
    """index of the row holding every f'th unit of weight"""
    return np.repeat(np.arange(len(w)), w)[f - 1::f]


def check_indices(ix, w, f):
    ref = list(unit_positions(w, f))
    got = [int(i) for i in ix]
    assert got == ref or got == [0] + ref, 'thinned rows %s, expected %s' % (got[:30], ref[:30])
    return got


@case(st.tuples(weight_lists, factors), quick=3000)
def unit_spacing(c, t):
    wl, f = c
    w = np.array(wl, dtype=float)
    wi = np.array(wl)
    t.nontrivial(f > 1 and max(wl) > 1)
    t.label('factor>=max' if f >= max(wl) else 'factor<max')
    ix = check_indices(WeightedSamples.thin_indices_single_samples(f, w), wi, f)
    s = WeightedSamples(samples=np.arange(len(wl), dtype=float), weights=w.copy(), min_weight_ratio=-1)
    equal([int(i) for i in s.thin_indices(f)], ix, 'thin indices of stored weights')
    equal([int(i) for i in s.thin_indices(f, w)], ix, 'thin indices of given weights')
    assert abs(len(ix) - sum(wl) / f) <= 1, 'number of samples'
    uniq, counts = WeightedSamples.thin_indices_and_weights(f, w)
    equal([int(i) for i in np.repeat(uniq, counts)], ix, 'indices and weights')
    assert np.all(np.diff(uniq) > 0)
    equal(raises(s.thin_indices, f + 0.5), True, 'non-integer factor rejected')
    w2 = w.copy()
    w2[-1] += 0.3
    equal(raises(s.thin_indices, f, w2), True, 'non-integer weights rejected')


@case(st.tuples(weight_lists, factors, st.booleans(), st.booleans(), seeds), quick=1500)
def thin_samples(c, t):
    wl, f, has_like, named, seed = c
    n = len(wl)
    r = np.random.RandomState(seed)
    x = r.normal(size=(n, 2))
    ll = r.gamma(2, size=n) if has_like else None
    w = np.array(wl, dtype=float)
    t.nontrivial(f > 1 and max(wl) > 1)

    def new():
        if named:
            s = Chains(names=['a', 'b'])
            s.setSamples(x.copy(), w.copy(), None if ll is None else ll.copy(), min_weight_ratio=-1)
            return s
        return WeightedSamples(samples=x.copy(), weights=w.copy(), loglikes=None if ll is None else ll.copy(),
                               min_weight_ratio=-1)

    s = new()
    ix = check_indices(s.thin_indices(f), np.array(wl), f)
    if not ix:
        return
    s.thin(f)
    close(s.samples, x[ix], what='thinned samples')
    close(s.weights, np.ones(len(ix)), what='thinned weights')
    close(s.norm, len(ix), what='norm')
    equal(s.numrows, len(ix), 'rows')
    if has_like:
        close(s.loglikes, ll[ix], what='thinned likelihoods')
    else:
        assert s.loglikes is None
    close(s.getMeans(), x[ix].mean(axis=0), rtol=1e-9, atol=1e-12, what='means after thinning')
    s = new()
    s.weighted_thin(f)
    u, k = np.unique(ix, return_counts=True)
    close(s.samples, x[u], what='weighted-thinned samples')
    close(s.weights, k, what='weighted-thinned weights')
    close(s.norm, len(ix), what='norm')
    if has_like:
        close(s.loglikes, ll[u], what='weighted-thinned likelihoods')
    close(s.getMeans(), x[ix].mean(axis=0), rtol=1e-9, atol=1e-12, what='means after weighted thinning')


@case(st.tuples(st.lists(weight_lists.filter(lambda l: len(l) > 1), min_size=1, max_size=3), st.integers(1, 8), st.booleans(),
                st.booleans(), seeds), quick=800)
def thin_chains(c, t):
    """thinning keeps separate chains separate"""
    wls, f, combined, has_like, seed = c
    r = np.random.RandomState(seed)
    wls = [[max(1, i) for i in wl] for wl in wls]
    xs = [r.normal(size=(len(wl), 2)) for wl in wls]
    lls = [r.gamma(2, size=len(wl)) for wl in wls]
    refs = [unit_positions(np.array(wl), f) for wl in wls]
    if any(len(ref) == 0 for ref in refs):
        t.label('too short')
        return
    t.nontrivial(len(wls) > 1 and f > 1)
    s = Chains(names=['a', 'b'])
    s.loadChains('', [x.copy() for x in xs], weights=[np.array(wl, dtype=float) for wl in wls],
                 loglikes=[l.copy() for l in lls] if has_like else None)
    if combined:
        s.makeSingle()
        if len(wls) > 0:
            # plain thinning of the combination: still splittable at the right rows
            s2 = Chains(names=['a', 'b'])
            s2.loadChains('', [x.copy() for x in xs], weights=[np.array(wl, dtype=float) for wl in wls],
                          loglikes=[l.copy() for l in lls] if has_like else None)
            s2.makeSingle()
            allw = np.hstack([np.array(wl) for wl in wls])
            ix = check_indices(s2.thin_indices(f), allw, f)
            which = np.repeat(np.arange(len(wls)), [len(wl) for wl in wls])
            allx = np.vstack(xs)
            s2.thin(f)
            sep = s2.getSeparateChains()
            for k, ch in enumerate(sep):
                rows = [i for i in ix if which[i] == k]
                close(ch.samples, allx[rows], what='chain %d of thinned combination' % k)
    s.weighted_thin(f)
    equal(s.chains is None, combined, 'combined state kept')
    sep = s.getSeparateChains()
    equal(len(sep), len(wls), 'number of chains')
    for x, wl, ll, ch in zip(xs, wls, lls, sep):
        u, k = np.unique(check_indices(WeightedSamples.thin_indices_single_samples(f, np.array(wl, dtype=float)),
                                       np.array(wl), f), return_counts=True)
        close(ch.samples, x[u], what='thinned chain')
        close(ch.weights, k, what='thinned chain weights')
        if has_like:
            close(ch.loglikes, ll[u], what='thinned chain likelihoods')
    if combined:
        close(s.samples, np.vstack([ch.samples for ch in sep]), what='combined samples')


@case(st.tuples(st.integers(5, 60), st.sampled_from(['int', 'float', 'unit', 'importance']), st.sampled_from([1, 1, 2, 5.5]),
                seeds), quick=150)
def random_selection(c, t):
    """weight-1 samples drawn at random: each row kept with probability weight/(max weight x thin), reproducible by seed"""
    n, wk, thin, seed = c
    spec = dict(n=n, d=2, seed=seed, kind='normal', w=wk, loglikes=True)
    x, w0, ll, names = samp.make(spec)
    w = samp.ones(w0, n)
    s = MCSamples(samples=x, weights=None if w0 is None else w0.copy(), loglikes=ll, names=names, settings={'ignore_rows': 0})
    t.nontrivial(w0 is not None)
    p = w / w.max() / thin
    K = 400
    counts = np.zeros(n)
    for k in range(K):
        ix = s.random_single_samples_indices(random_state=k, thin=None if thin == 1 and k % 2 else thin)
        assert len(set(ix.tolist())) == len(ix) and np.all(np.diff(ix) > 0), 'indices not increasing'
        counts[ix] += 1
    sd = np.sqrt(K * p * (1 - p))
    bad = np.abs(counts - K * p) > 6.5 * sd + 3
    assert not np.any(bad), 'row kept %d of %d times, expected probability %g' % (
        counts[np.argmax(bad)], K, p[np.argmax(bad)])
    tot = counts.sum()
    assert abs(tot - K * p.sum()) <= 6 * np.sqrt(np.sum(sd ** 2)) + 1e-9, 'total number kept'
    a = s.random_single_samples_indices(random_state=seed)
    b = s.random_single_samples_indices(random_state=seed)
    equal(a.tolist(), b.tolist(), 'same seed')
    assert set(np.flatnonzero(w == w.max()).tolist()) <= set(a.tolist()), 'largest-weight row dropped'
    m = max(1, n // 4)
    mean = np.mean([len(s.random_single_samples_indices(random_state=k, max_samples=m)) for k in range(200)])
    expect = min(m, w.sum() / w.max())
    assert abs(mean - expect) < 6 * np.sqrt(expect / 200.) + 0.01, 'mean number %g, expected %g' % (mean, expect)
    assert raises(s.random_single_samples_indices, thin=2, max_samples=3)
    # same selection as samples and as a chain file
    if seed % 3 == 0:
        s = MCSamples(samples=x, weights=None if w0 is None else w0.copy(), names=names, settings={'ignore_rows': 0})
        ll = np.zeros(n)
    for th in (None, 3):
        arr = s.makeSingleSamples(single_thin=th, random_state=seed)
        f = os.path.join(t.dir(), 'single.txt')
        s.makeSingleSamples(f, single_thin=th, random_state=seed)
        cols = np.loadtxt(f, ndmin=2) if os.path.getsize(f) else np.zeros((0, 4))
        close(cols[:, 2:], arr, rtol=1e-6, what='selected samples in file') if len(arr) else equal(len(cols), 0, 'rows')
        rows = [int(np.argmin(np.sum((x - v) ** 2, axis=1))) for v in arr]
        if rows:
            close(x[rows], arr, what='selected rows')
            close(cols[:, 0], np.ones(len(arr)), what='unit weights')
            close(cols[:, 1], ll[rows], rtol=1e-6, what='likelihoods in file')


@case(st.tuples(weight_lists.filter(lambda l: len(l) > 4), factors, st.sampled_from([1, 0.5, 2.]), seeds), quick=300)
def thin_file(c, t):
    """thinned chain files hold exactly the thinned rows, optionally re-weighted for cooling"""
    wl, f, cool, seed = c
    n = len(wl)
    r = np.random.RandomState(seed)
    x = r.normal(size=(n, 2))
    ll = r.gamma(2, size=n)
    w = np.array([max(1, i) for i in wl], dtype=float)
    s = MCSamples(samples=x, weights=w, loglikes=ll, names=['a', 'b'], settings={'ignore_rows': 0})
    ix = s.thin_indices(f)
    if not len(ix):
        return
    t.nontrivial(f > 1)
    fname = os.path.join(t.dir(), 'thin.txt')
    s.writeThinData(fname, ix, cool)
    cols = np.loadtxt(fname, ndmin=2)
    close(cols[:, 2:], x[ix], rtol=1e-6, what='thinned samples in file')
    close(cols[:, 1], ll[ix] * cool, rtol=1e-6, what='likelihoods in file')
    ref = np.exp(ll[ix] * (1 - cool))
    close(cols[:, 0] / cols[0, 0], ref / ref[0], rtol=1e-5, what='weights in file')
