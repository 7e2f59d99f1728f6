import numpy as np
from hypothesis import strategies as st
from vlib import case, close, equal
import samp
from gen import seeds
from getdist.chains import WeightedSamples, Chains, covToCorr
from getdist import MCSamples

RULE = ('weighted sample sets (unit/integer/real/importance/zero weights; correlated, scaled, offset, tied, constant '
        'columns), requests by index, name, vector, list, with index or boolean filters; non-trivial: non-unit weights '
        'and >=3 rows')
ASSUMPTIONS = ['total weight (also after filtering) is positive', 'floating-point agreement to 1e-9 relative to the scale of the data']


def tol(cols):
    return 1e-9 * max(1e-300, max(np.max(np.abs(c)) for c in cols) ** 2)


def objects(x, w, ll, names):
    yield 'plain', WeightedSamples(samples=x.copy(), weights=None if w is None else w.copy(),
                                   loglikes=None if ll is None else ll.copy(), min_weight_ratio=-1)
    if np.any(np.ptp(x, axis=0) == 0):
        return  # fixed parameters are removed by design
    yield 'named', MCSamples(samples=x.copy(), weights=None if w is None else w.copy(),
                             loglikes=None if ll is None else ll.copy(), names=names,
                             settings={'ignore_rows': 0, 'min_weight_ratio': -1}, min_weight_ratio=-1.)


@st.composite
def cases(draw):
    spec = draw(samp.specs())
    return dict(spec=spec, where=draw(st.sampled_from(['none', 'bool', 'index', 'all'])), wseed=draw(seeds))


@case(cases(), quick=1500, shards=2)
def statistics(c, t):
    x, w0, ll, names = samp.make(c['spec'])
    n, d = x.shape
    w = samp.ones(w0, n)
    t.nontrivial(w0 is not None and n > 2)
    r = np.random.RandomState(c['wseed'])
    if c['where'] == 'none':
        where, sel = None, np.arange(n)
    elif c['where'] == 'bool':
        where = r.uniform(size=n) < 0.6
        where[np.argmax(w)] = True
        sel = np.flatnonzero(where)
    elif c['where'] == 'index':
        sel = np.unique(np.append(r.randint(n, size=r.randint(1, n + 1)), np.argmax(w)))
        where = sel
    else:
        where, sel = np.ones(n, dtype=bool), np.arange(n)
    t.label('where ' + c['where'])
    xs, ws = x[sel], w[sel]
    cols = [xs[:, i] for i in range(d)]
    means = np.array([samp.ref_mean(col, ws) for col in cols])
    cov = samp.ref_cov(cols, ws)
    scale = np.array([max(1e-300, np.max(np.abs(col))) for col in cols])
    vec = np.sin(x[:, 0]) + np.arange(n) / 7.
    vs = vec[sel]
    for what, s in objects(x, w0, ll, names):
        a = dict(where=where) if where is not None else {}
        close(s.get_norm(**a), ws.sum(), what='norm')
        for i in range(d):
            refs = [i, x[:, i].copy(), np.int64(i)] + ([names[i], s.paramNames.names[i]] if what == 'named' else [])
            for ref in refs:
                close(s.mean(ref, **a), means[i], rtol=1e-9, atol=1e-11 * scale[i], what='mean')
                close(s.weighted_sum(ref, **a), means[i] * ws.sum(), rtol=1e-9, atol=1e-11 * scale[i] * ws.sum(),
                      what='weighted sum')
                close(s.var(ref, **a), cov[i, i], rtol=1e-8, atol=1e-11 * scale[i] ** 2, what='variance')
                close(s.std(ref, **a), np.sqrt(cov[i, i]), rtol=1e-8, atol=3e-6 * scale[i], what='std')
                close(s.mean_diff(ref, **a), cols[i] - means[i], rtol=1e-9, atol=1e-11 * scale[i], what='differences')
        close(s.mean(vec, **a), samp.ref_mean(vs, ws), what='mean of vector')
        close(s.mean(list(range(d)), **a), means, atol=1e-11 * scale.max(), rtol=1e-9, what='list of means')
        close(s.var(list(range(d)), **a), np.diag(cov), rtol=1e-8, atol=1e-11 * scale.max() ** 2, what='list of variances')
        got = s.cov(**a)
        sc2 = np.outer(scale, scale)
        close(got / sc2, cov / sc2, rtol=1e-8, atol=1e-11, what='covariance')
        got = s.cov([0, vec], **a)
        refc = samp.ref_cov([cols[0], vs], ws)
        close(got[0, 1], refc[0, 1], rtol=1e-8, atol=1e-11 * scale[0] * np.abs(vec).max(), what='covariance with vector')
        close(np.array(s.mean_diffs(**a)), np.array([col - m for col, m in zip(cols, means)]), rtol=1e-9,
              atol=1e-11 * scale.max(), what='all differences')
        if ll is not None:
            close(s.mean(-1, **a), samp.ref_mean(ll[sel], ws), what='mean -log(like)')
        close(s.mean(-2, **a), samp.ref_mean(w[sel], ws), what='mean weight')
        if where is None:
            close(s.getMeans(), means, rtol=1e-9, atol=1e-11 * scale.max(), what='means')
            close(s.getMeans(pars=[d - 1, 0]), means[[d - 1, 0]], rtol=1e-9, atol=1e-11 * scale.max(), what='means')
            close(s.getVars() / scale ** 2, np.diag(cov) / scale ** 2, rtol=1e-8, atol=1e-11, what='variances')
            k = 1 + c['wseed'] % d
            close(s.getCov(k) / sc2[:k, :k], cov[:k, :k] / sc2[:k, :k], rtol=1e-8, atol=1e-11, what='first covariance')
            pars = list(range(d))[::-1][:k]
            close(s.getCov(pars=pars) / sc2[np.ix_(pars, pars)], cov[np.ix_(pars, pars)] / sc2[np.ix_(pars, pars)],
                  rtol=1e-8, atol=1e-11, what='covariance of listed')
            sd = np.sqrt(np.diag(cov))
            good = sd > 1e-5 * scale
            corr = cov[np.ix_(good, good)] / np.outer(sd[good], sd[good])
            for m in (s.getCorrelationMatrix(), s.corr()):
                close(m[np.ix_(good, good)], corr, rtol=1e-6, atol=1e-6, what='correlation')
            s.setMeans()
            if ll is not None:
                close(s.mean_loglike, samp.ref_mean(ll, w), what='stored mean -log(like)')
            s.setDiffs()
            close(s.var(0), cov[0, 0], rtol=1e-8, atol=1e-11 * scale[0] ** 2, what='variance after setDiffs')


@case(st.tuples(samp.specs(weights=('int', 'zeros'), max_rows=30), seeds, st.floats(0.01, 100)), quick=600)
def equivalent_sets(c, t):
    """integer weights mean repeated rows; row order and overall weight scale are irrelevant; zero-weight rows are invisible"""
    spec, seed, fac = c
    x, w, ll, names = samp.make(spec)
    ix = np.repeat(np.arange(len(w)), w.astype(int))
    r = np.random.RandomState(seed)
    perm = r.permutation(len(w))
    t.nontrivial(len(w) > 2)
    a = WeightedSamples(samples=x, weights=w.copy(), min_weight_ratio=-1)
    sc = max(1e-300, np.abs(x).max())
    for what, b in (('repeated rows', WeightedSamples(samples=x[ix])),
                    ('permuted rows', WeightedSamples(samples=x[perm], weights=w[perm].copy(), min_weight_ratio=-1)),
                    ('rescaled weights', WeightedSamples(samples=x, weights=w * fac, min_weight_ratio=-1)),
                    ('zero weights dropped', WeightedSamples(samples=x[w > 0], weights=w[w > 0].copy()))):
        close(b.getMeans(), a.getMeans(), rtol=1e-9, atol=1e-11 * sc, what='means, ' + what)
        close(b.getCov(), a.getCov(), rtol=1e-8, atol=1e-11 * sc ** 2, what='covariance, ' + what)


@case(st.tuples(st.integers(1, 5), seeds, st.lists(st.integers(0, 4), max_size=2)), quick=300)
def correlation_conversion(c, t):
    d, seed, zero = c
    r = np.random.RandomState(seed)
    L = r.normal(size=(d, d)) * 10. ** r.randint(-3, 4, size=(d, 1))
    cov = L.dot(L.T)
    zero = [z for z in zero if z < d]
    cov[zero, :] = 0
    cov[:, zero] = 0
    orig = cov.copy()
    got = covToCorr(cov)
    close(cov, orig, what='input unchanged')
    sd = np.sqrt(np.diag(orig))
    sd[sd == 0] = 1
    close(got, orig / np.outer(sd, sd), rtol=1e-9, atol=1e-12, what='correlation')
    t.nontrivial(d > 1)
    covToCorr(cov, copy=False)
    close(cov, got, what='in-place')
