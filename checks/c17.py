import math
import numpy as np
from scipy.stats import norm
from hypothesis import strategies as st
from vlib import case, Discard, close, equal, raises
from gen import seeds
from getdist.gaussian_mixtures import (MixtureND, Mixture2D, Mixture1D, Gaussian1D, Gaussian2D, GaussianND, RandomTestMixtureND,
                                       randomTestMCSamples, make_2D_Cov)

RULE = ('mixtures of 1-4 Gaussians in 1-5 dimensions with unequal weights, correlations, scales and hard limits; non-trivial: more than one component '
        'or a hard limit')
ASSUMPTIONS = ['covariances with condition number below about 1e6', 'sample statistics within 6 standard errors']


@st.composite
def mixtures(draw, min_d=1, max_d=5, lims=False):
    d = draw(st.integers(min_d, max_d))
    return dict(d=d, n=draw(st.integers(1, 4)), seed=draw(seeds), scaled=draw(st.booleans()), weights=draw(st.sampled_from(['none', 'random', 'zero', 'unnormalised'])),
                lims=draw(st.lists(st.sampled_from(['', 'lo', 'hi', 'both']), min_size=d, max_size=d)) if lims else None, kind=draw(st.integers(0, 3)))


def make(c):
    """-> means, covs, weights (normalised), raw weights, lims"""
    r = np.random.RandomState(c['seed'])
    d, n = c['d'], c['n']
    sc = 10. ** r.uniform(-1.5, 1.5, size=d) if c['scaled'] else np.ones(d)
    means = r.normal(size=(n, d)) * 1.5 * sc
    covs = []
    for _ in range(n):
        A = r.normal(size=(d, d)) * 0.4 + np.eye(d) * r.uniform(0.5, 1.2)
        covs.append((A.dot(A.T) + 0.05 * np.eye(d)) * np.outer(sc, sc))
    w = None
    if c['weights'] != 'none':
        w = r.uniform(0.1, 1, size=n)
        if c['weights'] == 'unnormalised':
            w *= 7
        elif c['weights'] == 'zero' and n > 1:
            w[r.randint(n)] = 0
    nw = np.ones(n) / n if w is None else w / w.sum()
    lims = None
    if c['lims']:
        lims = []
        for i, k in enumerate(c['lims']):
            s = math.sqrt(covs[0][i, i])
            lo, hi = means[0][i] - r.uniform(0.2, 1.5) * s, means[0][i] + r.uniform(0.2, 1.5) * s
            lims.append([lo if k in ('lo', 'both') else None, hi if k in ('hi', 'both') else None])
    return means, covs, nw, w, lims


def build(c):
    means, covs, nw, w, lims = make(c)
    if c['d'] == 1 and c['kind'] == 0:
        return Mixture1D(means[:, 0], [math.sqrt(k[0, 0]) for k in covs], weights=w, lims=lims[0] if lims else None)
    if c['d'] == 2 and c['kind'] == 0:
        return Mixture2D(means, covs, w, lims=lims)
    if c['d'] == 2 and c['kind'] == 1:
        return Mixture2D(means, [[math.sqrt(k[0, 0]), math.sqrt(k[1, 1]), k[0, 1] / math.sqrt(k[0, 0] * k[1, 1])] for k in covs], w,
                         **(dict(xmin=lims[0][0], xmax=lims[0][1], ymin=lims[1][0], ymax=lims[1][1]) if lims else {}))
    if c['n'] == 1 and c['kind'] == 2:
        return GaussianND(means[0], np.linalg.inv(covs[0]), is_inv_cov=True, lims=lims)
    return MixtureND([list(m) for m in means], covs, w, lims=lims)


def gauss(x, mean, cov):
    """multivariate normal density, in units of the standard deviations"""
    x = np.asarray(x, dtype=float)
    sd = np.sqrt(np.diag(cov))
    L = np.linalg.cholesky(cov / np.outer(sd, sd))
    z = np.linalg.solve(L, ((x - mean) / sd).reshape(-1, len(sd)).T)
    res = np.exp(-np.sum(z ** 2, axis=0) / 2) / np.prod(np.diag(L) * sd) / (2 * math.pi) ** (len(sd) / 2.)
    return res.reshape(x.shape[:-1])


def pdf(x, means, covs, nw):
    return sum(w * gauss(x, m, k) for m, k, w in zip(means, covs, nw))


def points(r, means, covs, num):
    x = np.array([r.multivariate_normal(means[i], covs[i] * r.choice([0.3, 1, 4])) for i in r.randint(len(means), size=num)])
    return x.reshape(num, len(means[0]))


@case(mixtures(), quick=500)
def densities(c, t):
    """pdf, total mean and covariance, marginals"""
    means, covs, nw, w, _ = make(c)
    m = build(c)
    r = np.random.RandomState(c['seed'] + 1)
    t.nontrivial(c['n'] > 1)
    x = points(r, means, covs, 6)
    ref = np.atleast_1d(pdf(x, means, covs, nw))
    got = m.pdf(x)
    close(np.ravel(got), ref, rtol=1e-5, atol=1e-8 * ref.max(), what='pdf')
    for p, f in zip(x, ref):
        close(np.squeeze(m.pdf(p)), f, rtol=1e-5, atol=1e-8 * ref.max(), what='pdf at one point')
    mean = nw.dot(means)
    close(m.total_mean, mean, rtol=1e-9, atol=1e-9 * np.abs(means).max(), what='mean')
    C = sum(q * (k + np.outer(u - mean, u - mean)) for q, k, u in zip(nw, covs, means))
    sd = np.sqrt(np.diag(C))
    close(m.total_cov / np.outer(sd, sd), C / np.outer(sd, sd), rtol=1e-7, atol=1e-7, what='covariance')
    for i in range(c['d']):
        v = x[:, i]
        one = sum(q * norm(u[i], math.sqrt(k[i, i])).pdf(v) for q, k, u in zip(nw, covs, means))
        close(m.pdf_marged(i, v), one, rtol=1e-6, atol=1e-12 / sd[i], what='marginalised pdf')
        close(m.pdf_marged(m.names[i], v), one, rtol=1e-6, atol=1e-12 / sd[i], what='marginalised pdf by name')
        d = m.density1D(m.names[i])
        one = sum(q * norm(u[i], math.sqrt(k[i, i])).pdf(d.x) for q, k, u in zip(nw, covs, means))
        close(d.P, one, rtol=1e-6, atol=1e-12 / sd[i], what='gridded density')
        lo = min(u[i] - 4 * math.sqrt(k[i, i]) for u, k in zip(means, covs))
        hi = max(u[i] + 4 * math.sqrt(k[i, i]) for u, k in zip(means, covs))
        close([d.x[0], d.x[-1]], [lo, hi], rtol=1e-9, atol=1e-9 * sd[i], what='range')


@case(st.tuples(mixtures(min_d=2), st.integers(0, 31), st.permutations([0, 1, 2, 3, 4]), st.booleans()), quick=500)
def reduced(c, t):
    """P(x, y) = P(y) P(x | y), and integrating out parameters in any order gives the same mixture"""
    spec, mask, order, by_name = c
    means, covs, nw, w, _ = make(spec)
    m = build(spec)
    d = spec['d']
    r = np.random.RandomState(spec['seed'] + 1)
    fixed = [i for i in order if i < d and (mask >> i) & 1]
    if not fixed or len(fixed) == d:
        fixed = [order[0] % d]
    keep = [i for i in range(d) if i not in fixed]
    t.nontrivial(spec['n'] > 1)
    names = [m.names[i] for i in fixed] if by_name else fixed
    marg = m.marginalizedMixture(names, label='lab')
    equal(marg.names, [m.names[i] for i in fixed], 'names')
    equal(marg.label, 'lab', 'label')
    ix = np.ix_(fixed, fixed)
    f_means, f_covs = [u[fixed] for u in means], [k[ix] for k in covs]
    pts = points(r, means, covs, 5)
    for x in pts:
        y = x[fixed]
        close(np.squeeze(marg.pdf(y)), pdf(y, f_means, f_covs, nw), rtol=1e-6, atol=0, what='marginal density')
        cond = m.conditionalMixture(names, list(y))
        equal(cond.names, [m.names[i] for i in keep], 'names of the conditional mixture')
        joint = pdf(x, means, covs, nw)
        close(np.squeeze(marg.pdf(y)) * np.squeeze(cond.pdf(x[keep])), joint, rtol=1e-5, atol=1e-12 * joint, what='marginal times conditional density')
        # elsewhere, too
        x2 = pts[r.randint(5)].copy()
        x2[fixed] = y
        joint = pdf(x2, means, covs, nw)
        close(np.squeeze(marg.pdf(y)) * np.squeeze(cond.pdf(x2[keep])), joint, rtol=1e-5, atol=1e-280, what='marginal times conditional density')
        close(cond.weights.sum(), 1, what='weights')
    close(marg.total_mean, m.total_mean[fixed], rtol=1e-9, atol=1e-9 * np.abs(means).max(), what='mean of marginal')
    sd = np.sqrt(np.diag(m.total_cov))[fixed]
    close(marg.total_cov / np.outer(sd, sd), m.total_cov[ix] / np.outer(sd, sd), rtol=1e-8, atol=1e-8, what='covariance of marginal')
    if len(fixed) > 1:
        a = marg.marginalizedMixture([marg.names[1]])
        b = m.marginalizedMixture([marg.names[1]])
        close(a.pdf(pts[:, [fixed[1]]]), b.pdf(pts[:, [fixed[1]]]), rtol=1e-8, what='marginalised twice')
        g = m.density2D(names[:2], num_points=30)
        X, Y = np.meshgrid(g.x, g.y)
        two = sum(q * gauss(np.dstack([X, Y]), u[fixed[:2]], k[np.ix_(fixed[:2], fixed[:2])]) for q, u, k in zip(nw, means, covs))
        close(g.P, two, rtol=1e-5, atol=1e-9 * two.max(), what='2D density')
        # on a grid with the requested ends
        ends = [(u - h * sd[k], u + g * sd[k]) for k, u, h, g in zip((0, 1), marg.total_mean, r.uniform(0.1, 8, 2), r.uniform(0.1, 8, 2))]
        asked = [v if r.randint(2) else None for end in ends for v in end]
        # (zero is a range like any other)
        asked = [0 if v is not None and r.randint(3) == 0 and (marg.total_mean[k // 2] > 0) == (k % 2 == 0) else v for k, v in enumerate(asked)]
        h = m.density2D(names[:2], num_points=20, **dict(zip(['xmin', 'xmax', 'ymin', 'ymax'], asked)))
        for got, want, what in zip((h.x[0], h.x[-1], h.y[0], h.y[-1]), asked, ('lowest x', 'highest x', 'lowest y', 'highest y')):
            if want is not None:
                close(got, want, what=what)
        X, Y = np.meshgrid(h.x, h.y)
        two = sum(q * gauss(np.dstack([X, Y]), u[fixed[:2]], k[np.ix_(fixed[:2], fixed[:2])]) for q, u, k in zip(nw, means, covs))
        close(h.P, two, rtol=1e-5, atol=1e-9 * two.max(), what='2D density')
    assert raises(m.conditionalMixture, list(range(d)), list(pts[0])), 'nothing left to vary'


@case(mixtures(lims=True), quick=400)
def limits(c, t):
    means, covs, nw, w, lims = make(c)
    m = build(c)
    has = [a is not None or b is not None for a, b in lims]
    t.nontrivial(any(has))
    for i, name in enumerate(m.names):
        equal((m.getLower(name), m.getUpper(name)), tuple(lims[i]), 'limits of ' + name)
    rng = m.autoRanges()
    sig = np.array([[math.sqrt(q[i, i]) for i in range(c['d'])] for q in covs])
    # the same limits further out or beyond the components
    move = [(6, 0.5, -6, 0)[(c['seed'] + i) % 4] * max(sig[:, i]) for i in range(c['d'])]
    far = [[None if v is None else v + d for v in lim] for lim, d in zip(lims, move)]
    for lm, rg in ((lims, rng), (far, m.autoRanges(lims=far))):
        for i, ((lo, hi), (a, b)) in enumerate(zip(lm, rg)):
            assert a < b, 'range %s for limits %s' % ((a, b), (lo, hi))
            if lo is None:
                top = min(means[:, i] - 4 * sig[:, i])
                assert a <= top + 1e-9 * abs(top), 'range from %g, distribution extends to %g' % (a, top)
                assert hi is None or a <= hi - 4 * min(sig[:, i]) + 1e-9 * abs(hi), 'range from %g is not below the limit %g' % (a, hi)
            if hi is None:
                top = max(means[:, i] + 4 * sig[:, i])
                assert b >= top - 1e-9 * abs(top), 'range to %g, distribution extends to %g' % (b, top)
                assert lo is None or b >= lo + 4 * min(sig[:, i]) - 1e-9 * abs(lo), 'range to %g is not above the limit %g' % (b, lo)
    for i in range(c['d']):
        for k in (0, 1):
            if lims[i][k] is not None:
                equal(rng[i][k], lims[i][k], 'range at the limit')
        assert rng[i][0] < rng[i][1], 'range %s' % (rng[i],)
        other = any(has[:i] + has[i + 1:])
        if other:
            assert raises(m.pdf_marged, i, 0.), 'analytic marginalisation over a limited parameter'
            assert raises(m.density1D, i), 'analytic marginalisation over a limited parameter'
            assert raises(m.marginalizedMixture, [i]), 'analytic marginalisation over a limited parameter'
        d = m.density1D(i, no_limit_marge=other)
        close([d.x[0], d.x[-1]], rng[i], what='range of density')
        one = sum(q * norm(u[i], math.sqrt(k[i, i])).pdf(d.x) for q, k, u in zip(nw, covs, means))
        close(d.P, one, rtol=1e-6, atol=1e-12 * one.max(), what='density')
        mm = m.marginalizedMixture([i], no_limit_marge=other)
        equal((mm.getLower(m.names[i]), mm.getUpper(m.names[i])), tuple(lims[i]), 'limits kept')


@case(st.tuples(mixtures(lims=True, max_d=3), st.integers(0, 1), st.booleans(), st.sampled_from([1, 2, 50, 2000, 3000])), quick=200, shards=2)
def sampling(c, t):
    """samples follow the (truncated) mixture; requested number, names, ranges; reproducible"""
    spec, lim, likes, size = c
    if not lim:
        spec = dict(spec, lims=None)
    means, covs, nw, w, lims = make(spec)
    m = build(spec)
    lims = lims or [[None, None]] * spec['d']
    z = np.vstack([np.random.RandomState(1).multivariate_normal(u, cv, size=int(2000 * q)) for u, cv, q in zip(means, covs, nw)])
    ok = np.all([((a is None) | (z[:, i] >= (0 if a is None else a))) & ((b is None) | (z[:, i] <= (0 if b is None else b))) for i, (a, b) in enumerate(lims)], axis=0)
    if ok.mean() < 0.005:
        raise Discard('hardly any sample within the limits')
    x = m.sim(size, random_state=spec['seed'])
    equal(x.shape, (size, spec['d']), 'shape of samples')
    for i, (a, b) in enumerate(lims):
        assert (a is None or x[:, i].min() >= a) and (b is None or x[:, i].max() <= b), 'sample outside the limits'
    close(m.sim(size, random_state=spec['seed']), x, what='samples with the same seed')
    assert not np.allclose(m.sim(size, random_state=spec['seed'] + 1), x), 'samples with another seed'
    # independent truncated sampling
    r = np.random.RandomState(spec['seed'] + 5)
    if size >= 2000:
        t.nontrivial(spec['n'] > 1 or bool(lim))
        y = []
        num = 0
        for _ in range(60):
            k = r.multinomial(4000, nw)
            z = np.vstack([r.multivariate_normal(u, cv, size=q) for u, cv, q in zip(means, covs, k)])
            for i, (a, b) in enumerate(lims):
                if a is not None:
                    z = z[z[:, i] >= a]
                if b is not None:
                    z = z[z[:, i] <= b]
            y.append(z)
            num += len(z)
            if num > 8000:
                break
        y = np.vstack(y)
        if len(y) > 200:
            for i in range(spec['d']):
                sd = y[:, i].std()
                err = sd * math.sqrt(1. / size + 1. / len(y))
                close(x[:, i].mean(), y[:, i].mean(), rtol=0, atol=6 * err, what='mean of samples')
                close(x[:, i].std() / sd, 1, rtol=0, atol=8 * err / sd, what='deviation of samples')
                # order carries no information
                h = size // 2
                close(x[:h, i].mean(), x[h:, i].mean(), rtol=0, atol=6 * sd * math.sqrt(4. / size), what='halves of the samples')
    if size >= 50:
        own = spec['kind'] == 3
        names = ['n%d' % i for i in range(spec['d'])] if own else None
        s = m.MCSamples(size, names=names, logLikes=likes, random_state=spec['seed'], settings={'ignore_rows': 0})
        close(s.samples, x, what='MCSamples')
        equal(s.paramNames.list(), names or m.names, 'names')
        for i, n in enumerate(names or m.names):
            equal((s.ranges.getLower(n), s.ranges.getUpper(n)), tuple(lims[i]), 'ranges')
        if likes:
            close(s.loglikes, -np.log(np.atleast_1d(pdf(x, means, covs, nw))), rtol=1e-6, atol=1e-6, what='log likelihoods')
        else:
            equal(s.loglikes, None, 'log likelihoods')


@case(st.tuples(seeds, st.integers(1, 4), st.integers(1, 3), st.integers(1, 3)), quick=60)
def random_test_samples(c, t):
    seed, ndim, ncomp, num = c
    t.nontrivial(ncomp > 1)
    a = randomTestMCSamples(ndim=ndim, ncomponent=ncomp, nsamp=300, nMCSamples=num, seed=seed)
    b = randomTestMCSamples(ndim=ndim, ncomponent=ncomp, nsamp=300, nMCSamples=num, seed=seed)
    a, b = (a, b) if num > 1 else ([a], [b])
    equal(len(a), num, 'number of sample sets')
    for u, v in zip(a, b):
        close(u.samples, v.samples, what='same seed')
        equal(u.paramNames.list(), ['x%d' % i for i in range(ndim)], 'names')
        equal(u.paramNames.labels(), ['x_{%d}' % i for i in range(ndim)], 'labels')
    if num > 1:
        assert not np.allclose(a[0].samples, a[1].samples), 'sets differ'
    m = RandomTestMixtureND(ndim, ncomp, seed=seed)
    equal((m.dim, len(m.covs)), (ndim, ncomp), 'size')
    for k in m.covs:
        assert np.allclose(k, k.T) and np.all(np.linalg.eigvalsh(k) > -1e-12), 'covariance'
