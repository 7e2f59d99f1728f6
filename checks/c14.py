import math
import numpy as np
from scipy import signal
from hypothesis import strategies as st
from vlib import case, close, equal, raises
from gen import seeds
from kde_ref import KINDS, draw_param, make, mc, quantile, ref_range, sample_specs, Range
from getdist import MCSamples

RULE = ('weighted samples (normal, skewed, uniform, two-peaked; hard limits reached, close or far on either side) with all smoothing, '
        'boundary and bias-correction settings, given in settings or per call; non-trivial: a hard limit, non-unit weights or correlation')
ASSUMPTIONS = ['at least 30 samples, parameters not constant', 'kernels and windows are sampled on the documented fine grid',
               'automatic bandwidths: only scaling relations, and agreement with the true density within sampling noise']


def on_edge(v, p, n):
    """a sample sits on a bin edge to rounding: its bin is not determined"""
    u = (v - p.x0) / (p.x1 - p.x0) * (n - 1) + 0.5
    return np.any(np.abs(u - np.round(u)) < 1e-7)


def bin_of(v, p, n):
    return np.floor((v - p.x0) / (p.x1 - p.x0) * (n - 1) + 0.5).astype(int)


def local_fit(hist, mask, K, powers):
    """value at u=0 of the polynomial least-squares fit with kernel weights; arrays over the grid"""
    def mom(f):
        return signal.convolve(mask, f, mode='valid', method='direct')

    A = np.array([[mom(K * a * b) for b in powers] for a in powers])
    rhs = np.array([signal.convolve(hist, K * a, mode='same', method='direct') for a in powers])
    A = np.moveaxis(A, (0, 1), (-2, -1))
    rhs = np.moveaxis(rhs, 0, -1)
    det = np.linalg.det(A)
    A[np.abs(det) < 1e-300] = np.eye(len(powers))
    return np.linalg.solve(A, rhs[..., None])[..., 0, 0]


def ref_1d(v, w, p, n, h, border, order):
    hist = np.bincount(bin_of(v, p, n), weights=w, minlength=n)
    h = min(max(1., h), n // 2)
    winw = min(int(round(2.5 * h)), n // 2 - 2)
    u = np.arange(-winw, winw + 1)
    K = np.exp(-(u / h) ** 2 / 2)
    K /= K.sum()
    P = np.convolve(hist, K, 'same')
    raw = P.copy()
    big = np.ones(n + 2 * winw)
    if p.bot:
        big[:winw] = 0
        big[winw] = 0.5
    if p.top:
        big[n + winw:] = 0
        big[n + winw - 1] = 0.5
    powers = [u ** 0., u, u ** 2.][:border + 1]
    ok = P > 0
    if (p.bot or p.top) and border >= 0:
        a0 = np.convolve(big, K, 'valid')
        simple = P[ok] / a0[ok]
        P[ok] = simple
        if border > 0:
            P[ok] = simple * np.exp(np.minimum(local_fit(hist, big, K, powers)[ok] / simple, 4) - 1)
    elif border == 2:
        fit = local_fit(hist, np.ones(n + 2 * winw), K, powers)
        P[ok] *= np.exp(np.minimum(fit[ok] / P[ok], 2) - 1)
    if order:
        m = np.ones(n)
        if p.bot:
            m[0] = 0.5
        if p.top:
            m[-1] = 0.5
        a0 = np.convolve(m, K, 'same')
        for _ in range(order):
            P = P * np.convolve(hist / np.where(P == 0, 1, P), K, 'same') / a0
    return P / P.max(), raw, hist, K


OPTS = dict(smooth=st.sampled_from([0.15, 0.3, 0.5, 0.9, 1., 1.5, 3.]), border=st.sampled_from([-1, 0, 1, 1, 2]), order=st.sampled_from([0, 1, 1, 2]),
            fine=st.sampled_from([64, 100, 256, 1024]), by_call=st.booleans(), num_bins=st.sampled_from([100, 40]), rc=st.sampled_from([0.001, 0.01, 0.1]),
            nd=st.sampled_from([-1, -1, 0, 1]))


@case(st.tuples(sample_specs(), st.fixed_dictionaries(OPTS)), quick=700, shards=2)
def density_1d(c, t):
    spec, o = c
    x, w, L, ranges = make(spec)
    v = x[:, 0]
    opts = dict(smooth_scale_1D=o['smooth'], boundary_correction_order=o['border'], mult_bias_correction_order=o['order'], fine_bins=o['fine'],
                num_bins=o['num_bins'])
    base = dict(range_confidence=o['rc'], range_ND_contour=o['nd'])
    if o['by_call']:
        s = mc(x, w, L, ranges, **base)
        d = s.get1DDensityGridData('p', meanlikes=L is not None, **opts)
    else:
        s = mc(x, w, L, ranges, **dict(base, **opts))
        d = s.get1DDensityGridData('p', meanlikes=L is not None)
        assert s.get1DDensity('p') is d or np.array_equal(s.get1DDensity('p').P, d.P), 'kept density differs'
    nd = None
    if L is not None and o['nd'] >= 0:
        q = s.getLikeStats().parWithName('p')
        nd = [q.ND_limit_bot[o['nd']], q.ND_limit_top[o['nd']]]
    p = ref_range(v, w, ranges['p'], o['rc'], nd)
    t.nontrivial(p.bot or p.top or spec['w'] != 'unit')
    t.label('limits %d%d' % (p.bot, p.top))
    n = o['fine']
    tol = 1e-9 * (p.x1 - p.x0)
    close([d.x[0], d.x[-1]], [p.x0, p.x1], rtol=1e-12, atol=tol, what='ends of the density grid')
    equal(len(d.x), n, 'number of points')
    close(np.diff(d.x), np.full(n - 1, (p.x1 - p.x0) / (n - 1)), rtol=1e-6, what='spacing')
    close(d.bounds(), [p.lo, p.hi], rtol=1e-12, atol=tol, what='view range')
    close(d.P.max(), 1., what='peak density')
    assert np.all(np.isfinite(d.P)), 'density is not finite'
    if on_edge(v, p, n):
        t.label('on edge')
        return
    dx = (p.x1 - p.x0) / (n - 1)
    h = o['smooth'] * (p.err if o['smooth'] < 1 else (p.hi - p.lo) / (o['num_bins'] - 1)) / dx
    P, raw, hist, K = ref_1d(v, w, p, n, h, o['border'], o['order'])
    close(d.P, P, rtol=1e-6, atol=1e-7, what='density')
    if L is None:
        assert d.likes is None
        return
    Lm = np.sum(L * w) / w.sum()
    ok = P > 1e-9
    lh = np.bincount(bin_of(v, p, n), weights=w * np.exp(Lm - L), minlength=n)
    lk = np.convolve(np.where(P > 0, lh / np.where(P > 0, P, 1), lh), K, 'same')
    lk[P > 0] *= (P / np.where(raw == 0, 1, raw))[P > 0]
    if np.all(ok == (P > 0)):
        close(d.likes[ok], (lk / lk.max())[ok], rtol=1e-5, atol=1e-6, what='mean likelihoods')


def ref_2d(hist, P0, px, py, n, rx, ry, corr, border, order):
    sm = max(rx, ry)
    winw = int(round(2.5 * sm))
    u = np.arange(-winw, winw + 1)
    C = np.array([[rx ** 2, rx * ry * corr], [rx * ry * corr, ry ** 2]])
    I = np.linalg.inv(C)
    ux, uy = u[None, :] + 0 * u[:, None], u[:, None] + 0 * u[None, :]
    K = np.exp(-(I[0, 0] * ux ** 2 + I[1, 1] * uy ** 2 + 2 * I[0, 1] * ux * uy) / 2)
    K /= K.sum()

    def conv(a, k, mode):
        return signal.fftconvolve(a, k, mode)

    P = conv(hist, K, 'same')

    def mask(half_all):
        m = np.ones((n + 2 * winw, n + 2 * winw))
        for ax, (p, arr) in enumerate(((px, m), (py, m.T))):
            if p.bot:
                arr[:, :winw] = 0
                arr[:, winw] *= 0.5
            if p.top:
                arr[:, n + winw:] = 0
                arr[:, n + winw - 1] *= 0.5
            if half_all:
                arr[:, :winw] = 0
                arr[:, n + winw:] = 0
        return m

    if (px.bot or px.top or py.bot or py.top) and border >= 0:
        m = mask(False)
        a = conv(m, K, 'valid')
        ok = a * P > P.max() * 1e-8
        simple = P[ok] / a[ok]
        if border == 0:
            P[ok] = simple
        else:
            powers = [np.ones(K.shape), ux, uy]
            A = np.array([[conv(m, K * f * g, 'valid')[ok] for f in powers] for g in powers])
            rhs = np.array([conv(hist, K * f, 'same')[ok] for f in powers])
            fit = np.linalg.solve(np.moveaxis(A, (0, 1), (-2, -1)), np.moveaxis(rhs, 0, -1)[..., None])[..., 0, 0]
            P[ok] = simple * np.exp(np.minimum(fit / simple, 4) - 1)
    if order:
        a = conv(mask(True), K, 'valid')
        for _ in range(order):
            box = hist.copy()
            ok = P > P.max() * 1e-8
            box[ok] /= P[ok]
            P = P * conv(box, K, 'same') / a
    return P / P.max()


@case(st.tuples(sample_specs(d=2, max_n=150), st.sampled_from([0.25, 0.5, 0.8, 1., 2.]), st.sampled_from([-1, 0, 1, 1]), st.sampled_from([0, 1, 1, 2]),
                st.sampled_from([48, 64, 101]), st.booleans(), st.sampled_from([40, 25]), st.booleans()), quick=250, shards=2)
def density_2d(c, t):
    spec, smooth, border, order, n, by_call, nb, swap = c
    x, w, L, ranges = make(spec)
    opts = dict(smooth_scale_2D=smooth, boundary_correction_order=border, mult_bias_correction_order=order, fine_bins_2D=n)
    base = dict(num_bins_2D=nb)
    if by_call:
        s = mc(x, w, L, ranges, **base)
    else:
        s, opts = mc(x, w, L, ranges, **dict(base, **opts)), {}
    names = 'qp' if swap else 'pq'
    d = s.get2DDensityGridData(names[0], names[1], num_plot_contours=2, **opts)
    ix, iy = 'pq'.index(names[0]), 'pq'.index(names[1])
    px, py = ref_range(x[:, ix], w, ranges[names[0]]), ref_range(x[:, iy], w, ranges[names[1]])
    m = [np.sum(x[:, k] * w) / w.sum() for k in (ix, iy)]
    corr = np.sum(w * (x[:, ix] - m[0]) * (x[:, iy] - m[1])) / w.sum() / px.err / py.err
    t.nontrivial(any([px.bot, px.top, py.bot, py.top]) or abs(corr) > 0.1)
    if abs(corr) > 0.85 or abs(abs(corr) - 0.1) < 1e-6:
        t.label('very correlated')
        return
    if abs(corr) < 0.1:
        corr = 0.
    tol = 1e-9
    for ax, p in ((d.x, px), (d.y, py)):
        equal(len(ax), n, 'number of points')
        close([ax[0], ax[-1]], [p.x0, p.x1], rtol=1e-12, atol=tol * (p.x1 - p.x0), what='ends of the grid')
    close(np.array(d.bounds()), [(px.lo, px.hi), (py.lo, py.hi)], rtol=1e-9, atol=tol, what='view ranges')
    close(d.P.max(), 1., what='peak density')
    if on_edge(x[:, ix], px, n) or on_edge(x[:, iy], py, n):
        t.label('on edge')
        return
    hist = np.zeros((n, n))
    np.add.at(hist, (bin_of(x[:, iy], py, n), bin_of(x[:, ix], px, n)), w)
    wx, wy = (px.x1 - px.x0) / (n - 1), (py.x1 - py.x0) / (n - 1)
    if smooth < 1:
        rx, ry = smooth * px.err / wx, smooth * py.err / wy
    else:
        scale = max(0.2, math.sqrt(1 - min(0.99, abs(corr)) ** 2))
        rx = ry = smooth * n / int(round(nb / scale))
    t.label('limits', any([px.bot, px.top, py.bot, py.top]))
    P = ref_2d(hist, None, px, py, n, rx, ry, corr, border, order)
    # values near the 1e-8 cuts may fall either way
    close(d.P, P, rtol=1e-4, atol=2e-6, what='density')
    lev = d.getContourLevels([0.68, 0.95])
    close(d.contours, lev, what='contour levels')
    g = s.get2DDensity(names[0], names[1], normalized=True, **opts)
    close(g.norm_integral(), 1., what='normalised integral')
    close(g.P / g.P.max(), d.P, rtol=1e-9, atol=1e-12, what='normalised density')


@case(st.tuples(sample_specs(max_n=120), st.sampled_from([0.3, 0.6]), seeds, st.floats(0.1, 30), st.floats(-20, 20)), quick=250)
def invariance(c, t):
    """order of rows, scaling of weights, repeated rows, other parameters, units and sign"""
    spec, smooth, seed, a, b = c
    x, w, L, ranges = make(spec)
    r = np.random.RandomState(seed)
    opts = dict(smooth_scale_1D=smooth, fine_bins=256)
    t.nontrivial()
    ref = mc(x, w, L, ranges, **opts)
    d = ref.get1DDensity('p')

    def same(s, what, f=1., off=0.):
        g = s.get1DDensity('p')
        if what == 'permuted rows' and not np.allclose(g.x, d.x, rtol=1e-9, atol=1e-8 * abs(d.x[-1] - d.x[0])):
            # the sum of the weights rounded differently: a quantile may be the neighbouring sample
            close(g.x, d.x, atol=3 * np.max(np.diff(np.sort(x[:, 0]))) + 1e-9, what='grid with ' + what)
            t.label('quantile tie')
            return
        close(g.x, d.x * f + off, rtol=1e-9, atol=1e-8 * abs(d.x[-1] - d.x[0]) * abs(f), what='grid with ' + what)
        # a sample may move by one bin on rounding
        close(g.P, d.P, rtol=1e-3, atol=0.02 if f != 1 else 1e-6, what='density with ' + what)

    perm = r.permutation(len(w))
    same(mc(x[perm], w[perm], None if L is None else L[perm], ranges, **opts), 'permuted rows')
    same(mc(x, w * 8, L, ranges, **opts), 'scaled weights')
    if spec['w'] == 'int':
        k = w.astype(int)
        same(mc(np.repeat(x, k, axis=0), np.ones(k.sum()), None, ranges, **opts), 'repeated rows')
    same(mc(np.hstack([x, r.normal(size=(len(w), 1))]), w, L, ranges, **opts), 'another parameter')
    lim = [None if q is None else q * a + b for q in ranges['p']]
    y = x * a + b
    if lim[0] is not None:
        lim[0] = min(lim[0], y.min())
    if lim[1] is not None:
        lim[1] = max(lim[1], y.max())
    same(mc(y, w, L, {'p': lim}, **opts), 'other units', a, b)
    g = mc(-x, w, L, {'p': [None if q is None else -q for q in ranges['p']][::-1]}, **opts).get1DDensity('p')
    # quantiles of the reflected samples may be the neighbouring sample
    gap = np.max(np.diff(np.sort(x[:, 0]))) + 1e-9
    close(-g.x[::-1], d.x, atol=3 * gap + 1e-9, what='reflected grid')
    at = d.x[::8]
    at = at[(at > -g.x[-1]) & (at < -g.x[0])]
    if np.abs(d.x[-1] + g.x[0]) + np.abs(d.x[0] + g.x[-1]) < 1e-9 * (d.x[-1] - d.x[0]):
        t.label('same reflected grid')
        close(g.Prob(-at), d.Prob(at), atol=0.03, what='reflected density')


@case(st.tuples(seeds, st.sampled_from(KINDS), st.sampled_from([2000, 5000]), st.sampled_from([0, 1]), st.sampled_from([0, 1])), quick=60, shards=2)
def recovers_1d(c, t):
    """automatic smoothing gives the density the samples were drawn from"""
    seed, kind, n, border, order = c
    r = np.random.RandomState(seed)
    x, lim = draw_param(r, n, kind)
    w = np.ones(n)
    s = mc(x[:, None], w, None, {'p': list(lim)}, boundary_correction_order=border, mult_bias_correction_order=order)
    d = s.get1DDensity('p')
    t.nontrivial(lim != (None, None))
    pdf = dict(normal=lambda u: np.exp(-u ** 2 / 2), skew=lambda u: np.exp(-u) * (u >= 0), uniform=lambda u: np.ones(len(u)),
               double=lambda u: np.exp(-((u - 2) / 0.4) ** 2 / 2) + np.exp(-((u + 2) / 0.4) ** 2 / 2), edge=lambda u: np.exp(-u ** 2 / 2) * (u <= 0))[kind]
    if lim[0] is not None:
        close(d.x[0], lim[0], atol=1e-9, what='density starts at the hard limit')
    if lim[1] is not None:
        close(d.x[-1], lim[1], atol=1e-9, what='density ends at the hard limit')
    d.normalize()
    truth = pdf(d.x).astype(float)
    truth /= np.sum((truth[1:] + truth[:-1]) / 2) * d.spacing
    err = np.abs(d.P - truth).max() / truth.max()
    assert err < 0.8, 'density is off by %g of the peak' % err
    err = np.sum(np.abs(d.P - truth)) * d.spacing
    t.label('L1<%.2f' % (math.ceil(err * 50) / 50))
    assert err < 0.15, 'mean absolute error of the density is %g' % err
    if lim != (None, None):
        return
    wide = s.get1DDensityGridData('p', smooth_scale_1D=-2.)
    narrow = s.get1DDensityGridData('p', smooth_scale_1D=-0.5)

    def rough(g):
        return np.sum(np.diff(g.P, 2)[5:-5] ** 2) / g.P.sum() ** 2

    d.normalize('max')
    assert rough(narrow) > rough(d) > rough(wide), 'larger smoothing scale gives rougher density'


def mirrored(f, d):
    # (view ranges differ by up to a sample)
    u = np.linspace(max(d.x[0], f.x[0]), min(d.x[-1], f.x[-1]), 40)
    v = np.linspace(max(d.y[0], -f.y[-1]), min(d.y[-1], -f.y[0]), 40)
    close(f(u, -v[::-1])[:, ::-1], d(u, v), rtol=0.05, atol=0.06 * d.P.max(), what='reflected density')


@case(st.tuples(seeds, st.sampled_from(['normal', 'corr', 'edge', 'edge2', 'flat']), st.sampled_from([1, 0])), quick=30, shards=3)
def recovers_2d(c, t):
    seed, kind, order = c
    r = np.random.RandomState(seed)
    n = 4000
    x = r.normal(size=(n, 2))
    ranges = {}
    rho = 0
    if kind == 'corr':
        rho = r.choice([-0.9, -0.5, 0.5, 0.9])
        x[:, 1] = rho * x[:, 0] + math.sqrt(1 - rho ** 2) * x[:, 1]
    elif kind.startswith('edge'):
        x[:, 0] = np.abs(x[:, 0])
        ranges['p'] = [0, None]
        if kind == 'edge2':
            x[:, 1] = -np.abs(x[:, 1])
            ranges['q'] = [None, 0]
    elif kind == 'flat':
        x = r.uniform(size=(n, 2))
        ranges = {'p': [0, 1], 'q': [0, 1]}
    s = mc(x, np.ones(n), None, ranges, mult_bias_correction_order=order)
    t.nontrivial(kind != 'normal')
    d = s.get2DDensity('p', 'q', normalized=True)
    X, Y = np.meshgrid(d.x, d.y)
    if kind == 'flat':
        truth = np.ones(X.shape)
    else:
        truth = np.exp(-(X ** 2 + Y ** 2 - 2 * rho * X * Y) / 2 / (1 - rho ** 2))
    truth /= d.integrate(truth)
    err = np.abs(d.P - truth).max() / truth.max()
    # (sampling noise is largest in corners; the rms is the sharper test)
    assert err < (1.2 if kind in ('flat', 'edge2') else 0.5), '2D density is off by %g of the peak' % err
    rms = math.sqrt(np.sum((d.P - truth) ** 2 * truth) / np.sum(truth ** 3))
    t.label('rms<%.2f' % (math.ceil(rms * 20) / 20))
    assert rms < 0.16, '2D density differs by %g rms' % rms
    # same with axes exchanged
    e = s.get2DDensity('q', 'p', normalized=True)
    close(e.P.T, d.P, rtol=0.05, atol=0.1 * d.P.max(), what='density with exchanged axes')
    # summed over one parameter it is the other's density
    one = s.get1DDensity('p')
    m = np.sum(d.P[1:-1], axis=0) + (d.P[0] + d.P[-1]) / 2
    got = np.interp(one.x, d.x, m / m.max())
    diff = np.mean(np.abs(got - one.P))
    assert diff < 0.25, 'projected 2D density differs from the 1D density by %g' % diff
    if kind == 'flat':
        return
    # reflected
    f = mc(x * [1, -1], np.ones(n), None, {k: ([-v[1] if v[1] is not None else None, -v[0] if v[0] is not None else None] if k == 'q' else v)
                                          for k, v in ranges.items()}, mult_bias_correction_order=order).get2DDensity('p', 'q', normalized=True)
    mirrored(f, d)


@case(st.tuples(seeds, st.sampled_from([-0.9, 0.9, 0.85, -0.95]), st.booleans()), quick=16, shards=2)
def bounded_2d(c, t):
    """two bounded parameters with strong correlation of either sign"""
    seed, rho, many = c
    r = np.random.RandomState(seed)
    n = 3000 if many else 800
    x = r.normal(size=(n, 2))
    x[:, 1] = rho * x[:, 0] + math.sqrt(1 - rho ** 2) * x[:, 1]
    x = x[np.all(np.abs(x) < 1.5, axis=1)]
    t.nontrivial()
    lim = {'p': [-1.5, 1.5], 'q': [-1.5, 1.5]}
    d = mc(x, np.ones(len(x)), None, lim, fine_bins_2D=128).get2DDensity('p', 'q')
    f = mc(x * [1, -1], np.ones(len(x)), None, lim, fine_bins_2D=128).get2DDensity('p', 'q')
    mirrored(f, d)


@case(st.tuples(seeds, st.sampled_from([-0.9, 0.7, 0.5, 0.97, -0.6]), st.sampled_from([0, 1]), st.sampled_from([0, 1]), st.booleans()), quick=16, shards=2)
def limit_on_one(c, t):
    """a limit on one of two correlated parameters: the same density whichever axis the limited parameter is on"""
    seed, rho, order, side, neff = c
    r = np.random.RandomState(seed)
    x = r.normal(size=(2500, 2))
    x[:, 1] = rho * x[:, 0] + math.sqrt(1 - rho ** 2) * x[:, 1]
    cut = r.uniform(-1, 0.3)
    x = x[x[:, 0] > cut] if side else x[x[:, 0] < -cut]
    scale = r.choice([0.01, 1, 300])
    x = x * [scale, 1]
    t.nontrivial()
    lim = {'p': [cut * scale, None] if side else [None, -cut * scale]}
    kw = dict(mult_bias_correction_order=order, fine_bins_2D=128, use_effective_samples_2D=neff)
    d = mc(x, np.ones(len(x)), None, lim, **kw).get2DDensity('p', 'q')
    e = mc(x[:, ::-1], np.ones(len(x)), None, {'q': lim['p']}, **kw).get2DDensity('p', 'q')
    close(e.x, d.y, what='grid with exchanged axes')
    close(e.y, d.x, what='grid with exchanged axes')
    close(e.P.T, d.P, rtol=0.01, atol=0.01 * d.P.max(), what='density with exchanged axes')


@case(st.tuples(seeds, st.integers(5, 20)), quick=10, shards=2)
def effective_2d(c, t):
    """the 2D effective sample number is used exactly when asked for"""
    seed, k = c
    r = np.random.RandomState(seed)
    n = 1200
    # a slow and a fast parameter
    slow = np.repeat(r.normal(size=n // k + 1), k)[:n] + 0.05 * r.normal(size=n)
    x = np.array([slow, r.normal(size=n)]).T
    t.nontrivial()
    out = []
    for use in (False, True):
        s = mc(x, np.ones(n), None, {}, use_effective_samples_2D=use, mult_bias_correction_order=0, fine_bins_2D=128)
        d = s.get2DDensity('p', 'q')
        N = [s.getEffectiveSamplesGaussianKDE('p'), s.getEffectiveSamplesGaussianKDE('q')]
        N2 = s.getEffectiveSamplesGaussianKDE_2d('p', 'q')
        out.append(d.P)
    # the two numbers differ, and so do the smoothing widths
    if abs(min(N) / N2 - 1) > 0.3:
        t.label('different')
        rough = [np.sum(np.diff(P, 2, axis=1) ** 2) / P.sum() ** 2 for P in out]
        assert (rough[0] < rough[1]) == (min(N) < N2), 'smoothing does not follow the effective number of samples'


@case(st.tuples(sample_specs(d=2, max_n=400), st.sampled_from([-1., -1., -0.5, -2.]), st.sampled_from([0, 1, 2]), st.sampled_from([0, 1, 1, 2])),
      quick=150, shards=2)
def automatic(c, t):
    """automatic smoothing uses the optimised width, for the effective number of samples, times the requested scale"""
    from getdist.kde_bandwidth import gaussian_kde_bandwidth_binned
    spec, scale, border, order = c
    x, w, L, ranges = make(spec)
    n = 256
    s = mc(x, w, L, ranges, smooth_scale_1D=scale, smooth_scale_2D=scale, fine_bins=n, fine_bins_2D=64, boundary_correction_order=border,
           mult_bias_correction_order=order)
    v = x[:, 0]
    p = ref_range(v, w, ranges['p'])
    t.nontrivial(scale != -1)
    if on_edge(v, p, n):
        return
    d = s.get1DDensity('p')
    N = s.getEffectiveSamplesGaussianKDE('p', scale=p.sigma)
    hist = np.bincount(bin_of(v, p, n), weights=w, minlength=n)
    h = gaussian_kde_bandwidth_binned(hist, Neff=N)
    width = max(v.max(), p.hi) - min(v.min(), p.lo)
    if h is None or h < 0.01 * N ** -0.2 * (p.hi - p.lo) / width:
        t.label('fallback')
        h = 1.06 * p.sigma * N ** -0.2 / width
    m = max(order, 1) if border > 1 else order
    if m:
        h *= N ** (1 / 5. - 1 / (4. * m + 5))
    par = s.paramNames.parWithName('p')
    close(s.getAutoBandwidth1D(hist, par, 0, mult_bias_correction_order=order, kernel_order=border), h, rtol=1e-6, what='bandwidth')
    dx = (p.x1 - p.x0) / (n - 1)
    P = ref_1d(v, w, p, n, min(h * (p.x1 - p.x0), (p.hi - p.lo) / 4) * abs(scale) / dx, border, order)[0]
    close(d.P, P, rtol=1e-4, atol=1e-5, what='density')
    if border == 2:
        assert raises(s.get2DDensity, 'p', 'q') or not any(
            (q.bot or q.top) for q in (p, ref_range(x[:, 1], w, ranges['q']))), '2D density with an unknown boundary correction'
        return
    # 2D
    n = 64
    q = ref_range(x[:, 1], w, ranges['q'])
    mm = [np.sum(x[:, k] * w) / w.sum() for k in (0, 1)]
    corr = np.sum(w * (x[:, 0] - mm[0]) * (x[:, 1] - mm[1])) / w.sum() / p.err / q.err
    if abs(corr) > 0.84 or abs(abs(corr) - 0.1) < 1e-6 or on_edge(v, p, n) or on_edge(x[:, 1], q, n):
        return
    corr = corr if abs(corr) >= 0.1 else 0.
    d = s.get2DDensity('p', 'q')
    hist = np.zeros((n, n))
    np.add.at(hist, (bin_of(x[:, 1], q, n), bin_of(v, p, n)), w)
    u = 2. ** -52
    near = [s.getAutoBandwidth2D(hist * (1 + g * u), par, s.paramNames.parWithName('q'), 0, 1, corr * (1 + f * u), (p.x1 - p.x0) * (1 + k * u),
                                 (q.x1 - q.x0) * (1 + j * u), n, mult_bias_correction_order=order)
            for f, g, k, j in [(0, 0, 0, 0), (1e5, 0, 0, 0), (-1e5, 0, 0, 0), (2, 2, 0, 0), (0, -3, 0, 0), (0, 0, 1, 0), (0, 0, -1, 0), (0, 0, 0, 1),
                               (0, 0, 0, -1), (0, 0, 2, -2), (0, 0, 1, 1), (0, 0, -1, -1), (0, 0, 300, 0), (0, 0, 0, 300), (0, 0, 5, 1), (0, 0, -5, 4)]]
    hx, hy, cc = near[0]
    if np.max(np.ptp(np.array(near), axis=0) / [hx, hy, 1]) > 1e-5:
        t.label('bandwidth sensitive to rounding')
        return
    assert hx > 0 and hy > 0 and abs(cc) < 1, 'kernel widths (%g, %g, %g)' % (hx, hy, cc)
    P = ref_2d(hist, None, p, q, n, hx * abs(scale) / (p.x1 - p.x0) * (n - 1), hy * abs(scale) / (q.x1 - q.x0) * (n - 1), cc, border, order)
    close(d.P, P, rtol=5e-3, atol=1e-4, what='2D density')
    # wider for fewer effective samples, as N^(-1/6) without bias correction
    a = s.getAutoBandwidth2D(hist, par, s.paramNames.parWithName('q'), 0, 1, corr, p.x1 - p.x0, q.x1 - q.x0, n, N_eff=4000., mult_bias_correction_order=0)
    b = s.getAutoBandwidth2D(hist, par, s.paramNames.parWithName('q'), 0, 1, corr, p.x1 - p.x0, q.x1 - q.x0, n, N_eff=4000., mult_bias_correction_order=1)
    f = 1.1 * 4000. ** (1 / 6. - 1 / 10.)
    close(b, [a[0] * f, a[1] * f, a[2]], rtol=1e-6, what='bandwidth for bias correction')
    # linear in the units
    a2 = mc(x * [1, 7.], w, L, {'p': ranges['p'], 'q': [None if u is None else u * 7 for u in ranges['q']]})
    g = a2.get2DDensityGridData('p', 'q', smooth_scale_2D=0.4, fine_bins_2D=48)
    g0 = s.get2DDensityGridData('p', 'q', smooth_scale_2D=0.4, fine_bins_2D=48, boundary_correction_order=1, mult_bias_correction_order=1)
    close(g.y, g0.y * 7, rtol=1e-9, atol=1e-9 * abs(g.y[-1] - g.y[0]), what='grid in other units')
    close(g.P, g0.P, rtol=1e-2, atol=0.05, what='2D density in other units')
