import math
import os
import re
import numpy as np
import scipy.linalg
from hypothesis import strategies as st
from vlib import case, close, equal, raises, read
import samp
from gen import seeds
from getdist.chains import WeightedSamples, Chains, getSignalToNoise
from getdist import MCSamples

RULE = ('correlated (AR(1), random-walk, Metropolis-like repeated) and independent weighted chains, 1-5 chains, 1-4 '
        'parameters, all options; convergence text is parsed back section by section; non-trivial: correlated rows or '
        'several chains')
ASSUMPTIONS = ['chains have at least 20 rows each, varying parameters',
               'printed numbers are compared to the printed precision']


@st.composite
def ar_specs(draw, min_n=20, max_n=200, max_d=3, weights=('unit', 'int', 'float')):
    return dict(n=draw(st.integers(min_n, max_n)), d=draw(st.integers(1, max_d)), seed=draw(seeds),
                rho=draw(st.sampled_from([0, 0.3, 0.7, 0.95, 0.995, -0.5])), w=draw(st.sampled_from(weights)),
                scale=draw(st.sampled_from([1., 1e-4, 300.])), offset=draw(st.sampled_from([0., 5., -40.])))


def make(spec, d=None, w=None):
    r = np.random.RandomState(spec['seed'])
    n, d = spec['n'], d or spec['d']
    x = np.empty((n, d))
    x[0] = r.normal(size=d)
    rho = spec['rho']
    for i in range(1, n):
        x[i] = rho * x[i - 1] + math.sqrt(1 - rho ** 2) * r.normal(size=d)
    x = x * spec['scale'] + spec['offset']
    w = w or spec['w']
    weights = {'unit': np.ones(n), 'int': r.randint(1, 6, size=n).astype(float), 'float': r.uniform(0.05, 2, size=n)}[w]
    return x, weights, r.gamma(2, 1, size=n)


def ref_autocorr(v, w, maxoff, weight_units, normalized, norm=None):
    n = len(v)
    m = np.sum(v * w) / np.sum(w)
    d = (v - m) * w
    c = np.array([np.sum(d[:n - k] * d[k:]) / (n - k) for k in range(maxoff + 1)])
    if normalized:
        c = c / (np.sum(w * (v - m) ** 2) / np.sum(w))
    if weight_units:
        c = c * n / np.sum(w)
    return c


def ref_length(c, min_corr=0.05):
    tot = c[0]
    for v in c[1:]:
        if v <= min_corr * c[0]:
            break
        tot += 2 * v
    return tot


def near_threshold(c, min_corr=0.05):
    """a correlation so near the cut that rounding could decide"""
    return np.any(np.abs(c - min_corr * c[0]) < 1e-9 * np.abs(c[0]))


@case(st.tuples(ar_specs(), st.booleans(), st.booleans(), st.floats(0, 1), st.sampled_from([0.02, 0.05, 0.2]),
                st.booleans()), quick=500)
def autocorrelation(c, t):
    spec, units, normalized, frac, min_corr, as_vec = c
    x, w, ll = make(spec)
    t.nontrivial(spec['rho'] != 0 or spec['w'] != 'unit')
    s = WeightedSamples(samples=x.copy(), weights=w.copy(), loglikes=ll)
    n = len(x)
    maxoff = int(frac * (n - 1))
    for j in range(x.shape[1]):
        arg = x[:, j].copy() if as_vec else j
        ref = ref_autocorr(x[:, j], w, maxoff, units, normalized)
        got = s.getAutocorrelation(arg, maxoff, weight_units=units, normalized=normalized)
        sc = np.max(np.abs(ref_autocorr(x[:, j], w, 0, units, normalized)))
        close(got, ref, rtol=1e-7, atol=1e-9 * sc, what='auto-correlation')
        full = ref_autocorr(x[:, j], w, n // 10, units, True)
        if not near_threshold(full, min_corr):
            close(s.getCorrelationLength(arg, weight_units=units, min_corr=min_corr), ref_length(full, min_corr), rtol=1e-7,
                  what='correlation length')
            t.label('length>1.5', ref_length(full, min_corr) > 1.5 * full[0])
            close(s.getCorrelationLength(arg, min_corr=min_corr, corr=full), ref_length(full, min_corr), rtol=1e-7,
                  what='correlation length from given auto-correlation')
        full = ref_autocorr(x[:, j], w, n // 10, True, True)
        if not near_threshold(full, min_corr):
            close(s.getEffectiveSamples(j, min_corr=min_corr), np.sum(w) / ref_length(full, min_corr), rtol=1e-7,
                  what='effective number of samples')


@case(st.tuples(st.lists(ar_specs(20, 60), min_size=2, max_size=5), st.integers(1, 4), st.sampled_from(['unit', 'int', 'float']),
                seeds, st.integers(0, 3)), quick=500)
def gelman_rubin(c, t):
    specs, d, w, seed, nder = c
    base = dict(specs[0])
    data = [make(dict(s, scale=base['scale'], offset=base['offset']), d, w) for s in specs]
    if specs[0] == specs[1]:
        return
    t.nontrivial()
    names = samp.NAMES[:d]
    nder = min(nder, d - 1)
    names = names[:d - nder] + [n + '*' for n in names[d - nder:]]
    mc = MCSamples(samples=[x.copy() for x, _, _ in data], weights=[v.copy() for _, v, _ in data], names=names, settings={'ignore_rows': 0})
    equal(mc.paramNames.numNonDerived(), d - nder, 'number of sampled parameters')

    def ref(nparam, chains):
        allx, allw = np.vstack([x for x, _, _ in data]), np.hstack([v for _, v, _ in data])
        m = allw.dot(allx) / allw.sum()
        B = np.zeros((nparam, nparam))
        W = np.zeros((nparam, nparam))
        for x, v, _ in chains:
            mk = v.dot(x) / v.sum()
            B += np.outer(mk - m, mk - m)[:nparam, :nparam]
            W += samp.ref_cov(list(x.T), v)[:nparam, :nparam]
        return scipy.linalg.eigvalsh(B / (len(chains) - 1), W / len(chains))

    r = ref(d - nder, data)
    close(np.sort(mc.getGelmanRubinEigenvalues()), r, rtol=1e-6, atol=1e-9 * r.max() + 1e-12, what='Gelman-Rubin eigenvalues')
    close(mc.getGelmanRubin(), r.max(), rtol=1e-6, atol=1e-12, what='Gelman-Rubin R-1')
    for nparam in range(1, d + 1):
        r = ref(nparam, data)
        close(mc.getGelmanRubin(nparam), r.max(), rtol=1e-6, atol=1e-12, what='R-1 of the first parameters')
    if len(data) > 2:
        sub = mc.getSeparateChains()[1:]
        close(mc.getGelmanRubin(d, sub), ref(d, data[1:]).max(), rtol=1e-6, atol=1e-12, what='R-1 of selected chains')
    # invariant under invertible linear maps of all parameters
    if not nder:
        A = np.random.RandomState(seed).normal(size=(d, d)) + 2 * np.eye(d)
        if np.linalg.cond(A) < 100:
            mc2 = MCSamples(samples=[x.dot(A) for x, _, _ in data], weights=[v.copy() for _, v, _ in data], names=names, settings={'ignore_rows': 0})
            close(mc2.getGelmanRubin(), mc.getGelmanRubin(), rtol=1e-4, atol=1e-12, what='R-1 after linear reparameterization')


@case(st.tuples(st.integers(1, 5), seeds, st.booleans()), quick=200)
def signal_to_noise(c, t):
    d, seed, eigs = c
    r = np.random.RandomState(seed)
    C, N = [(lambda a: a.dot(a.T) / d + 0.1 * np.eye(d))(r.normal(size=(d, d))) for _ in range(2)]
    t.nontrivial(d > 1)
    ref = scipy.linalg.eigvalsh(C, N)
    if eigs:
        close(np.sort(getSignalToNoise(C, N, eigs_only=True)), ref, rtol=1e-7, what='eigenvalues')
        close(np.sort(getSignalToNoise(C, R=np.linalg.inv(np.linalg.cholesky(N)), eigs_only=True)), ref, rtol=1e-7,
              what='eigenvalues from rotation')
    w, U = getSignalToNoise(C, N)
    close(np.sort(w), ref, rtol=1e-7, what='eigenvalues')
    # rows of U are combinations with unit noise variance and signal variance w
    close(U.dot(N).dot(U.T), np.eye(d), rtol=1e-7, atol=1e-8, what='noise in eigen-basis')
    close(U.dot(C).dot(U.T), np.diag(w), rtol=1e-7, atol=1e-7 * ref.max(), what='signal in eigen-basis')
    assert raises(getSignalToNoise, C), 'no error without noise'
    x = r.normal(size=(50, d)).dot(r.normal(size=(d, d)))
    ws = r.uniform(0.1, 1, size=50)
    s = WeightedSamples(samples=x, weights=ws)
    close(np.sort(s.getSignalToNoise(list(range(d)), N, eigs_only=True)),
          scipy.linalg.eigvalsh(samp.ref_cov(list(x.T), ws), N), rtol=1e-6, what='sample signal to noise')


def ref_kde_terms(kern, w, n):
    half = n // 2
    un = sum(kern(k) for k in range(half, half + 5)) / sum(n - k for k in range(half, half + 5))
    return lambda k: kern(k) - (n - k) * un


def ref_kde_1d(v, w, h, scale, maxoff, min_corr):
    """the documented unoptimized sum"""
    n = len(v)
    sd = (scale or math.sqrt(np.sum(w * (v - np.sum(w * v) / w.sum()) ** 2) / w.sum())) * h
    term = ref_kde_terms(lambda k: np.sum(np.exp(-((v[:-k] - v[k:]) / sd) ** 2 / 4) * w[:-k] * w[k:]), w, n)
    c0 = np.sum(w * w)
    tot, terms = c0, [c0]
    for k in range(1, maxoff + 1):
        q = term(k)
        terms.append(q)
        if q < min_corr * c0:
            break
        tot += 2 * q
    return w.sum() ** 2 / tot, np.array(terms)


@case(st.tuples(ar_specs(40, 400, 2), st.sampled_from([0.1, 0.2, 0.3]), st.booleans(),
                st.sampled_from(['mcmc', 'nested', 'uncorrelated'])), quick=300)
def kde_effective_samples(c, t):
    spec, h, repeat, sampler = c
    x, w, ll = make(spec, 2)
    if repeat:
        # rejections written as repeated rows
        x = np.repeat(x, np.random.RandomState(spec['seed'] + 1).randint(1, 5, size=len(x)), axis=0)
        w = np.ones(len(x))
    s = MCSamples(samples=x.copy(), weights=w.copy(), names=['x', 'y'], sampler=sampler,
                  settings={'ignore_rows': 0})
    n = len(x)
    plain = w.sum() ** 2 / np.sum(w * w)
    if sampler != 'mcmc':
        t.nontrivial(spec['w'] != 'unit')
        for j in (0, 1):
            close(s.getEffectiveSamplesGaussianKDE(j, h=h), plain, what='effective samples of uncorrelated samples')
        close(s.getEffectiveSamplesGaussianKDE_2d(0, 1, h=h), plain, what='2D effective samples of uncorrelated samples')
        return
    t.nontrivial(repeat or spec['rho'] != 0)
    auto = [ref_autocorr(x[:, j], w, n // 10, False, True) for j in (0, 1)]
    if any(near_threshold(a) for a in auto):
        return
    L = [ref_length(a) for a in auto]
    if any(abs(1.5 * l - round(1.5 * l)) < 1e-6 for l in L):
        return
    for j in (0, 1):
        maxoff = min(int(L[j] * 1.5) + 4, n // 10)
        ref, terms = ref_kde_1d(x[:, j], w, h, None, maxoff, 0.05)
        if near_threshold(terms):
            continue
        got = s.getEffectiveSamplesGaussianKDE(j, h=h)
        # the 1D estimate sub-samples separations: documented as approximate
        t.label('correlated kernel', ref < 0.7 * plain)
        if ref > 0:
            if len(terms) <= 3:
                close(got, ref, rtol=1e-6, what='effective samples')
            else:
                assert 0.4 * ref < got < 2.5 * ref, 'effective samples %g, direct sum gives %g' % (got, ref)
    cov = samp.ref_cov(list(x.T), w)
    inv = np.linalg.inv(cov) / h ** 2
    d = x.T

    def kern(k):
        dd = d[:, :-k] - d[:, k:]
        return np.sum(np.exp(-np.einsum('ia,ij,ja->a', dd, inv, dd) / 4) * w[:-k] * w[k:])

    term = ref_kde_terms(kern, w, n)
    c0 = np.sum(w * w)
    tot = c0
    for k in range(1, min(int(max(L) * 1.5) + 4, n // 10) + 1):
        q = term(k)
        if abs(q - 0.05 * c0) < 1e-9 * c0:
            return
        if q < 0.05 * c0:
            break
        tot += 2 * q
    close(s.getEffectiveSamplesGaussianKDE_2d(0, 1, h=h), w.sum() ** 2 / tot, rtol=1e-6, what='2D effective samples')


# ---- convergence report

def confid_ok(v, w, lim, upper, value):
    """value has the requested tail weight by counting (see C06)"""
    tot = w.sum() * lim * (1 + 1e-9) + 1e-9
    beyond = w[v > value].sum() if upper else w[v < value].sum()
    return beyond <= tot


def section(lines, start):
    ix = [i for i, l in enumerate(lines) if l.startswith(start)]
    assert len(ix) == 1, 'section %r appears %d times' % (start, len(ix))
    return ix[0]


def bic(counts, fitted):
    return 2 * sum(o * math.log(o / e) for o, e in zip(counts, fitted) if o)


def thin_ref(w, f):
    return np.repeat(np.arange(len(w)), np.round(w).astype(int))[f - 1::f]


@case(st.tuples(st.lists(ar_specs(40, 250), min_size=1, max_size=4), st.integers(1, 3),
                st.sampled_from(['unit', 'int', 'int', 'float']), st.integers(0, 2), st.sampled_from([0.95, 0.8]),
                st.integers(2, 5), st.sampled_from([0.95, 0.7]), st.booleans()), quick=300, shards=2)
def report(c, t):
    specs, d, wkind, nder, conf, nsplit, setting, to_file = c
    base = specs[0]
    data = [make(dict(s, scale=1., offset=base['offset']), d, wkind) for s in specs]
    nch = len(data)
    t.nontrivial(nch > 1 or base['rho'] != 0)
    names = samp.NAMES[:d]
    nder = min(nder, d - 1)
    labels = ['L' + n for n in names]
    names = names[:d - nder] + [n + '*' for n in names[d - nder:]]
    mc = MCSamples(samples=[x.copy() for x, _, _ in data], weights=[v.copy() for _, v, _ in data], names=names, labels=labels,
                   settings={'ignore_rows': 0, 'converge_test_limit': setting})
    mc.max_split_tests = nsplit
    x, w = np.vstack([p[0] for p in data]), np.hstack([p[1] for p in data])
    what = ['MeanVar', 'GelmanRubin', 'SplitTest', 'RafteryLewis', 'CorrLengths', 'CorrSteps']
    kw = {}
    if to_file:
        kw = dict(writeDataToFile=True, filename=os.path.join(t.dir(), 'out.converge'))
    text = mc.getConvergeTests(conf, what=what, **kw)
    if to_file:
        equal(read(kw['filename']), text, 'convergence file')
    lines = text.split('\n')
    mean = w.dot(x) / w.sum()
    var = w.dot((x - mean) ** 2) / w.sum()

    # correlation lengths, averaged over chains
    i = section(lines, 'Parameter autocorrelation lengths')
    maxoff = min(len(p[0]) for p in data) // 10
    maxN = 0
    for j in range(d):
        cor = sum(ref_autocorr(p[0][:, j], p[1], maxoff, True, False) * p[1].sum() for p in data) / (w.sum() * var[j])
        if near_threshold(cor):
            return
        N = ref_length(cor)
        maxN = max(N, maxN)
        f = lines[i + 3 + j].split()
        equal(f[0], names[j].replace('*', ''), 'parameter in correlation lengths')
        close(float(f[1]), N, rtol=6e-3, atol=6e-3 if w.mean() > 1 else 0, what='weight correlation length')
        close(float(f[2]), N / w.mean(), atol=6e-3, what='row correlation length')
        assert abs(float(f[3]) - w.sum() / N) < 1 + 1e-6, 'N_eff %s, expected %g' % (f[3], w.sum() / N)
    summary = mc.getNumSampleSummaryText()
    m = re.search(r'N/corr length\): (\S+)', summary)
    assert m and abs(float(m.group(1)) - w.sum() / maxN) <= 0.5 + 1e-6, 'summary of independent samples: ' + summary

    def num(pattern):
        return float(re.search(pattern, summary).group(1))

    equal(num(r'using (\d+) rows'), float(len(x)), 'rows in summary')
    equal(num(r'rows, (\d+) parameters'), float(d), 'parameters in summary')
    close([num('mean weight ([^,]+),'), num(r'tot weight (\S+)')], [w.mean(), w.sum()], rtol=1e-9, what='weights in summary')
    assert abs(num(r'max\(w\): (\S+)') - w.sum() / w.max()) <= 0.5 + 1e-6, 'single samples in summary'
    assert abs(num(r'sum\(w\^2\): (\S+)') - w.sum() ** 2 / np.sum(w * w)) <= 1 + 1e-6, 'weighted samples in summary'

    if nch > 1:
        i = section(lines, 'param sqrt(var(chain mean)/mean(chain var))')
        for j in range(d):
            mk = np.array([p[1].dot(p[0][:, j]) / p[1].sum() for p in data])
            within = sum(p[1].dot((p[0][:, j] - m) ** 2) for p, m in zip(data, mk)) / w.sum()
            f = lines[i + 2 + j].split()
            equal(f[0], names[j].replace('*', ''), 'parameter in mean convergence')
            close(float(f[1]), math.sqrt(np.sum((mk - mean[j]) ** 2) / (nch - 1) / within), atol=6e-5, what='mean convergence')
            equal(f[2], labels[j], 'label in mean convergence')
        i = section(lines, 'var(mean)/mean(var) for eigenvalues')
        np_ = d - nder
        B = sum(np.outer(p[1].dot(p[0]) / p[1].sum() - mean, p[1].dot(p[0]) / p[1].sum() - mean) for p in data) / (nch - 1)
        W = sum(samp.ref_cov(list(p[0].T), p[1]) for p in data) / nch
        ev = scipy.linalg.eigvalsh(B[:np_, :np_], W[:np_, :np_])
        close(sorted(float(lines[i + 1 + j][3:]) for j in range(np_)), ev, rtol=1e-6, atol=6e-6, what='R-1 in report')
        close(mc.GelmanRubin, ev.max(), rtol=1e-6, atol=1e-12, what='stored R-1')
    else:
        assert 'var(mean)/mean(var)' not in text and 'chain mean' not in text, 'multi-chain test of a single chain'

    # split tests
    i = section(lines, 'Split tests:')
    lims = [1 - (1 - conf) / 2, (1 - conf) / 2]
    cum = np.cumsum(w)
    full = WeightedSamples(samples=x.copy(), weights=w.copy())
    for j in range(d):
        rows = []
        whole = [full.confidence(j, l) for l in lims]
        for n in range(2, nsplit + 1):
            edges = [int(e) for e in mc.getFractionIndices(w, n)]
            equal([edges[0], edges[-1], len(edges)], [0, len(x), n + 1], 'ends of the splits')
            for q, e in enumerate(edges[1:-1]):
                # the rows up to the boundary have the requested part of the weight
                want = w.sum() * (q + 1) / n
                assert cum[e] >= want * (1 - 1e-9) and (e == 0 or cum[e - 1] <= want * (1 + 1e-9)), \
                    'rows before boundary %d of %d have weight %g, expected %g' % (q + 1, n, cum[e - 1], want)
            tot = np.zeros(2)
            for a, b in zip(edges[:-1], edges[1:]):
                part = WeightedSamples(samples=x[a:b].copy(), weights=w[a:b].copy(), min_weight_ratio=-1)
                tot += [(part.confidence(j, l) - q) ** 2 for l, q in zip(lims, whole)]
            rows.append(np.sqrt(tot / n / var[j]))
        for e, name in enumerate(['upper', 'lower']):
            f = lines[i + 3 + 2 * j + e]
            equal(f.split()[0], names[j].replace('*', ''), 'parameter in split tests')
            equal(f.split()[-1], name, 'end in split tests')
            got = [float(v) for v in f.split()[1:-1]]
            close(got, [r[e] for r in rows], atol=6e-5, rtol=1e-6, what='split test %s' % name)

    if wkind == 'float':
        assert 'Raftery' not in text, 'Raftery-Lewis of non-integer weights'
        return
    i = section(lines, 'Raftery&Lewis')
    for k, (xc, wc, _) in enumerate(data):
        f = lines[i + 3 + k].split()
        equal(int(f[0]), k, 'chain number')
        try:
            r = raftery(xc, wc, x, w, d - nder, lims)
        except _Unsure:
            continue
        if r is None:
            assert 'Failed' in lines[i + 3 + k], 'Raftery-Lewis gives %r, too few samples' % lines[i + 3 + k]
        else:
            t.label('Raftery-Lewis ok')
            assert 'Failed' not in lines[i + 3 + k], 'Raftery-Lewis failed, expected %s' % (r,)
            equal([int(v) for v in f[1:]], list(r), 'Raftery-Lewis thin, independent thin, burn')

    i = section(lines, 'Parameter auto-correlations as function of step')
    thin = 5 if maxN <= 30 else int(5 * maxN / 30)
    if abs(maxN - 30) < 1e-6 or abs(5 * maxN / 30 - round(5 * maxN / 30)) < 1e-6:
        return
    off = min(15, len(mc.thin_indices(thin)) // (2 * nch))
    if off > 0:
        cors = np.zeros((off, d))
        for xc, wc, _ in data:
            ix = WeightedSamples.thin_indices_single_samples(thin, wc)
            off = min(off, len(ix) // thin)
            for j in range(d):
                v = (xc[:, j] - wc.dot(xc[:, j]) / wc.sum())[ix]
                for o in range(1, off + 1):
                    cors[o - 1, j] += np.mean(v[o:] * v[:-o]) / var[j] / nch
        equal([int(v) for v in lines[i + 2].split()], [(o + 1) * thin for o in range(off)], 'separations')
        for j in range(d):
            f = lines[i + 3 + j].split()
            equal([f[0], f[-1]], [names[j].replace('*', ''), labels[j]], 'parameter in step correlations')
            close([float(v) for v in f[1:-1]], cors[:off, j], atol=6e-4, what='step correlations')
        t.label('step correlations', off > 0)


class _Unsure(Exception):
    pass


def raftery(xc, wc, x, w, npar, lims):
    """Raftery & Lewis (1992): thin until first-order Markov beats second order by BIC, get burn-in, then thin until
    independent. Returns (markov thin, independent thin, burn), or None if there are not enough samples."""
    s = WeightedSamples(samples=xc.copy(), weights=wc.copy(), min_weight_ratio=-1)
    f = int(round(wc.max()))
    burn, hardest, hardest_end = 0, -1, 0
    for j in range(npar):
        for end in (0, 1):
            u = float(s.confidence(j, np.array(lims))[end])
            while True:
                ix = WeightedSamples.thin_indices_single_samples(f, wc)
                if len(ix) < 4:
                    raise _Unsure()
                b = (xc[ix, j] < u).astype(int)
                tr = np.zeros((2, 2, 2))
                for p, q, r in zip(b, b[1:], b[2:]):
                    tr[p, q, r] += 1
                obs, fit = [], []
                for p in (0, 1):
                    for q in (0, 1):
                        for r in (0, 1):
                            if tr[p, q, r]:
                                obs.append(tr[p, q, r])
                                fit.append(tr[p, q].sum() * tr[:, q, r].sum() / tr[:, q].sum())
                v = bic(obs, fit) - 2 * math.log(len(ix) - 2)
                if abs(v) < 1e-9:
                    raise _Unsure()
                if v < 0:
                    break
                f += 1
            t01, t10 = tr[:, 0, 1].sum(), tr[:, 1, 0].sum()
            if not t01 or not t10:
                return None
            al, be = t01 / tr[:, 0].sum(), t10 / tr[:, 1].sum()
            if abs(1 - al - be) < 1e-12 or al + be == 2:
                raise _Unsure()
            m = math.log((al + be) * 0.001 / max(al, be)) / math.log(abs(1 - al - be))
            if abs(m - round(m)) < 1e-9:
                raise _Unsure()
            if int(m + 1) * f > burn:
                burn, hardest, hardest_end = int(m + 1) * f, j, end
    markov = f
    full = WeightedSamples(samples=x.copy(), weights=w.copy(), min_weight_ratio=-1)
    hardest = max(hardest, 0)
    u = full.confidence(hardest, lims[1], hardest_end == 0)
    while True:
        ix = WeightedSamples.thin_indices_single_samples(f, wc)
        if len(ix) < 3:
            raise _Unsure()
        b = (xc[ix, hardest] < u).astype(int)
        tr = np.zeros((2, 2))
        for p, q in zip(b, b[1:]):
            tr[p, q] += 1
        obs, fit = [], []
        for p in (0, 1):
            for q in (0, 1):
                if tr[p, q]:
                    obs.append(tr[p, q])
                    fit.append(tr[p].sum() * tr[:, q].sum() / (len(ix) - 1))
        v = bic(obs, fit) - math.log(len(ix) - 1)
        if abs(v) < 1e-9:
            raise _Unsure()
        if v < 0:
            break
        f += 1
    return markov, f, burn
