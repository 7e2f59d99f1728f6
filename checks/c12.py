import math
import numpy as np
from scipy import signal
from hypothesis import strategies as st
from vlib import case, close, equal, raises
from gen import seeds
from getdist import convolve as cv
from getdist import kde_bandwidth as kde

RULE = ('arrays of all small sizes plus sizes straddling FFT sizes and the direct/FFT switch (up to 2500), all modes, '
        'cached and uncached, repeated calls on one cache; binned mixtures for bandwidths; non-trivial: >1 element in both '
        'inputs, kernel wider than a pixel')
ASSUMPTIONS = ['in mode same/valid the kernel is not larger than the data', 'Gaussian kernels are accurate to 1e-3 of the '
               'peak because they are cut at 4 sigma',
               'arrays used with a cache stay alive and unmodified while it is used (documented)']


def vec(n, seed, kind):
    r = np.random.RandomState(seed)
    if kind == 'delta':
        x = np.zeros(n)
        x[r.randint(n)] = 1.5
        return x
    if kind == 'counts':
        return r.poisson(3, size=n).astype(float)
    return r.normal(size=n) * 10. ** r.randint(-3, 4)


SIZES = st.one_of(st.integers(1, 40), st.integers(1, 200), st.sampled_from([127, 128, 129, 255, 256, 257]))
BIG = st.one_of(st.integers(990, 1010), st.sampled_from([1024, 1025, 1500, 2047, 2048]))
KINDS = st.sampled_from(['normal', 'delta', 'counts'])


@case(st.tuples(SIZES, SIZES, seeds, KINDS, st.sampled_from(['same', 'full', 'valid']), st.integers(0, 300), st.booleans()),
      quick=1500)
def fft_1d(c, t):
    n, m, seed, kind, mode, largest, cached = c
    if m > n:
        n, m = m, n
    x, y = vec(n, seed, kind), vec(m, seed + 1, 'normal')
    t.nontrivial(m > 1)
    ref = np.convolve(x, y, mode)
    sc = np.abs(x).max() * np.abs(y).sum() + 1e-300
    cache = {} if cached else None
    for _ in range(2):
        close(cv.convolveFFT(x, y, mode, largest_size=largest, cache=cache), ref, rtol=1e-9, atol=1e-12 * sc, what='convolution')
    z = vec(n, seed + 2, 'normal')
    zsc = np.abs(z).max() * np.abs(y).sum() + 1e-300
    close(cv.convolveFFT(z, y, mode, largest_size=largest, cache=cache, cache_args=(2,)), np.convolve(z, y, mode), rtol=1e-9,
          atol=1e-12 * zsc, what='second convolution on the same cache')
    close(cv.convolve1D(x, y, mode), ref, rtol=1e-9, atol=1e-12 * sc, what='convolve1D')


@case(st.tuples(BIG, BIG, seeds, KINDS, st.sampled_from(['same', 'full', 'valid']), st.booleans()), quick=120)
def big_1d(c, t):
    n, m, seed, kind, mode, cached = c
    if m > n:
        n, m = m, n
    x, y = vec(n, seed, kind), vec(m, seed + 1, 'normal')
    t.nontrivial()
    t.label('FFT', m > 1000)
    cache = {} if cached else None
    sc = np.abs(x).max() * np.abs(y).sum() + 1e-300
    for _ in range(2):
        close(cv.convolve1D(x, y, mode, cache=cache), np.convolve(x, y, mode), rtol=1e-9, atol=1e-12 * sc, what='convolution')


D2 = st.integers(1, 24)


@case(st.tuples(D2, D2, D2, D2, seeds, st.sampled_from(['same', 'full', 'valid']), st.integers(0, 60), st.booleans()), quick=500)
def fft_2d(c, t):
    a, b, p, q, seed, mode, largest, cached = c
    p, q = min(a, p), min(b, q)
    r = np.random.RandomState(seed)
    x, y = r.normal(size=(a, b)), r.normal(size=(p, q))
    t.nontrivial(p * q > 1)
    ref = signal.convolve2d(x, y, mode)
    cache = {} if cached else None
    for f in (cv.convolve2D, lambda *args, **kw: cv.convolveFFTn(*args, **kw)):
        for _ in range(2):
            close(f(x, y, mode, largest_size=largest, cache=cache), ref, rtol=1e-9, atol=1e-10, what='2D convolution')
    z = r.normal(size=(a, b))
    close(cv.convolve2D(z, y, mode, largest_size=largest, cache=cache), signal.convolve2d(z, y, mode), rtol=1e-9, atol=1e-10,
          what='2D convolution on used cache')
    # a plane wave through the cosine transforms
    close(cv.idct2d(cv.dct2d(x)) / (4 * a * b), x, rtol=1e-9, atol=1e-11, what='inverse cosine transform')


@case(st.tuples(st.one_of(st.integers(2, 60), st.integers(2, 400)), seeds, KINDS, st.floats(0, 1), st.booleans(), st.integers(0, 5)),
      quick=700)
def auto(c, t):
    n, seed, kind, frac, normed, start = c
    x = vec(n, seed, kind)
    k = max(1, int(frac * n))
    t.nontrivial(n > 2)
    ref = np.array([np.sum(x[:n - i] * x[i:]) for i in range(n)])
    cnt = np.arange(n, 0, -1)
    sc = np.sum(x * x) + 1e-300
    close(cv.autoConvolve(x, k, normalize=normed), (ref / cnt if normed else ref)[:k], rtol=1e-9, atol=1e-12 * sc, what='auto-convolution')
    close(cv.autoConvolve(x, normalize=False), ref, rtol=1e-9, atol=1e-12 * sc, what='full auto-convolution')
    d = x - x.mean()
    if np.ptp(x) > 0:
        ref = np.array([np.sum(d[:n - i] * d[i:]) / (n - i) for i in range(n)])
        start = min(start, n - 1)
        got = cv.autoCorrelation(x, normalized=normed, start_index=start)
        sc = ref[0]
        close(got, (ref / ref[0] if normed else ref)[start:], rtol=1e-8, atol=1e-9 * (1 if normed else sc) * n, what='auto-correlation')


@case(st.integers(1, 5000000), quick=300)
def fft_sizes(c, t):
    t.nontrivial(c > 2)
    n = int(cv.nearestFFTnumber(c))
    assert n >= c and n % 2 == 0, 'transform size %d for %d' % (n, c)
    assert n <= 2 * c, 'transform size %d for %d' % (n, c)
    arr = np.array([c, max(1, c // 3)])
    equal([int(v) for v in cv.nearestFFTnumber(arr)], [n, int(cv.nearestFFTnumber(max(1, c // 3)))], 'sizes of an array')


def gauss_ref(x, sigma, cut):
    n = len(x)
    i = np.arange(n)
    k = np.exp(-((i[:, None] - i[None, :]) / sigma) ** 2 / 2)
    if cut is not None:
        k[np.abs(i[:, None] - i[None, :]) > cut] = 0
    return k.dot(x)


@case(st.tuples(st.integers(20, 150), seeds, KINDS, st.floats(0.1, 12), st.booleans()), quick=500)
def gaussians(c, t):
    n, seed, kind, sigma, cached = c
    x = np.abs(vec(n, seed, kind))
    sc = x.max() + 1e-300
    t.nontrivial(sigma > 1)
    fill = int(4 * sigma)
    k = np.arange(-fill, fill + 1)
    norm = np.sum(np.exp(-(k / sigma) ** 2 / 2))
    trunc = gauss_ref(x, sigma, fill) / norm
    caches = [{} if cached else None for _ in range(3)]
    for _ in range(2):
        close(cv.convolveGaussianTrunc(x, sigma, cache=caches[0]), trunc, rtol=1e-9, atol=1e-11 * sc, what='truncated Gaussian smoothing')
        close(cv.convolveGaussianTrunc(x, sigma, mode='full', cache=caches[0]),
              np.convolve(x, np.exp(-(k / sigma) ** 2 / 2) / norm, 'full'), rtol=1e-9, atol=1e-11 * sc, what='full smoothing')
        if n > 2 * fill + 1:
            close(cv.convolveGaussianTrunc(x, sigma, mode='valid', cache=caches[0]), trunc[fill:n - fill], rtol=1e-9,
                  atol=1e-11 * sc, what='smoothing away from the ends')
    # convolutions with the whole Gaussian
    if sigma > 1:
        full = gauss_ref(x, sigma, None) / (math.sqrt(2 * math.pi) * sigma)
        for _ in range(2):
            close(cv.convolveGaussian(x, sigma, cache=caches[1]), full, rtol=1e-3, atol=1e-3 * sc, what='Gaussian smoothing')
            close(cv.convolveGaussianDCT(x, sigma, cache=caches[2]), full, rtol=1e-3, atol=1e-3 * sc, what='cosine Gaussian smoothing')
            if n > 2 * fill + 1:
                close(cv.convolveGaussianDCT(x, sigma, mode='valid', cache=caches[2]), full[fill:n - fill], rtol=1e-3,
                      atol=1e-3 * sc, what='cosine Gaussian smoothing away from the ends')
        # without padding: reflecting ends, conserving the total
        r = cv.convolveGaussianDCT(x, sigma, pad_sigma=0, cache=caches[2])
        ext = np.concatenate([x[::-1], x, x[::-1]])
        if 4 * sigma < n:
            close(r, (gauss_ref(ext, sigma, None) / (math.sqrt(2 * math.pi) * sigma))[n:2 * n], rtol=1e-3, atol=1e-3 * sc,
                  what='reflecting Gaussian smoothing')
        close(r.sum(), x.sum(), rtol=1e-9, what='total')
        assert raises(cv.convolveGaussianDCT, x, sigma, mode='full', cache={}), 'unsupported mode accepted'


@case(st.tuples(seeds, st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5), st.integers(0, 2), st.sampled_from(['same', 'full', 'valid']),
                                          st.sampled_from([0, 0, 60, 100])), min_size=2, max_size=8),
                st.lists(st.integers(10, 60), min_size=2, max_size=3), st.lists(st.floats(0.3, 8), min_size=1, max_size=3)), quick=300)
def cache_history(c, t):
    """a history of calls sharing one cache per function: each call as without cache"""
    seed, ops, sizes, sigmas = c
    # near-equal widths, which share the cut in pixels
    sigmas = sigmas + [sigmas[0] * 1.02, sigmas[0] + 0.01]
    xs = [vec(n, seed + i, 'normal') for i, n in enumerate(sizes)] + [vec(sizes[0], seed + 10, 'normal')]
    ys = [vec(max(1, min(sizes) - k), seed + 20 + k, 'normal') for k in (0, 1, 3, 6)] + [vec(min(sizes), seed + 30, 'normal')]
    sq = [np.random.RandomState(seed + k).normal(size=(5 + k % 3, 6 + k % 2)) for k in range(6)]
    t.nontrivial(len(set(map(tuple, ops))) > 1)
    caches = {}
    for i, j, f, mode, largest in ops:
        x, y, sig = xs[i % len(xs)], ys[j % len(ys)], sigmas[j % len(sigmas)]
        for k, func in enumerate((cv.convolveGaussianTrunc, cv.convolveGaussian, cv.convolveGaussianDCT)):
            if mode == 'valid' and len(x) <= 8 * sig + 1 or k == 2 and sig < 1:
                continue
            kw = {} if k == 1 or k == 2 and mode == 'full' else {'mode': mode}
            close(func(x, sig, cache=caches.setdefault(k, {}), **kw), func(x, sig, cache={}, **kw), rtol=1e-9, atol=1e-9 * np.abs(x).max(),
                  what='%s with used cache' % func.__name__)
        args = [(1, 2), (1,), (2,)][f]
        close(cv.convolveFFT(x, y, mode, largest_size=largest, cache=caches.setdefault(3, {}), cache_args=args), np.convolve(x, y, mode),
              rtol=1e-9, atol=1e-11 * np.abs(x).max() * np.abs(y).sum(), what='convolveFFT with used cache')
        a, b = sq[i], sq[j][:3 + f, :3 + f // 2]
        kern = caches.setdefault((j, f), b)
        close(cv.convolve2D(a, kern, mode, largest_size=largest, cache=caches.setdefault(4, {}), cache_args=args),
              signal.convolve2d(a, kern, mode), rtol=1e-9, atol=1e-10, what='convolve2D with used cache')


# ---------------- bandwidths

@st.composite
def mixtures(draw):
    return dict(modes=draw(st.lists(st.tuples(st.floats(0.3, 0.7), st.floats(0.02, 0.08), st.floats(0.3, 1)), min_size=1, max_size=3)),
                size=draw(st.sampled_from([256, 512, 1024])), N=draw(st.sampled_from([50, 300, 2000, 50000])), seed=draw(seeds),
                noise=draw(st.booleans()))


def binned(c):
    x = (np.arange(c['size']) + 0.5) / c['size']
    p = sum(a * np.exp(-((x - m) / s) ** 2 / 2) / s for m, s, a in c['modes'])
    if c['noise']:
        p = np.random.RandomState(c['seed']).poisson(p / p.sum() * max(c['N'], 2000)).astype(float)
    return x, p


def isj_map(h, N, data):
    """Botev et al's gamma^[l](t) from a plain cosine series; fixed point t = xi gamma(t), t=h^2"""
    n = len(data)
    p = data / data.sum()
    k = np.arange(1, n)
    a = np.array([2 * np.sum(p * np.cos(np.pi * q * (np.arange(n) + 0.5) / n)) for q in k])

    def functional(j, t):
        return 0.5 * np.pi ** (2 * j) * np.sum(k ** (2. * j) * a ** 2 * np.exp(-(np.pi * k) ** 2 * t))

    f = functional(7, h ** 2)
    for j in range(6, 1, -1):
        df = np.prod(np.arange(1, 2 * j, 2.)) / math.sqrt(2 * math.pi)
        tj = (2 * (1 + 0.5 ** (j + 0.5)) / 3 * df / (N * f)) ** (2. / (3 + 2 * j))
        f = functional(j, tj)
    return (2 * N * math.sqrt(math.pi) * f) ** -0.2


@case(mixtures(), quick=300)
def bandwidth_1d(c, t):
    x, p = binned(c)
    t.nontrivial(len(c['modes']) > 1 or c['noise'])
    h = kde.gaussian_kde_bandwidth_binned(p, c['N'])
    if h is None:
        t.label('failed')
        assert c['noise'] or c['N'] < 100, 'no bandwidth for a smooth density'
        return
    ref = isj_map(h, c['N'], p)
    # the solver tolerance is 5 per cent of a rule-of-thumb start value
    if h > 0.15:
        t.label('very wide')
        return
    t.label('fixed point')
    assert abs(h - ref) < 0.25 * h, 'bandwidth %g is not a fixed point (map gives %g)' % (h, ref)
    # reflection
    h2 = kde.gaussian_kde_bandwidth_binned(p[::-1].copy(), c['N'])
    close(h2, h, rtol=1e-2, what='bandwidth of reflected data')
    close(kde.gaussian_kde_bandwidth_binned(p * 7, c['N']), h, rtol=1e-2, what='bandwidth of rescaled counts')
    from scipy import fftpack
    close(kde.gaussian_kde_bandwidth_binned(p, c['N'], a=fftpack.dct(p / p.sum())), h, rtol=1e-9, what='bandwidth with given transform')
    if len(c['modes']) == 1 and not c['noise']:
        m, s, _ = c['modes'][0]
        if min(m, 1 - m) > 4.5 * s:
            want = 1.06 * s * c['N'] ** -0.2
            t.label('Gaussian')
            assert 0.6 * want < h < 1.6 * want, 'bandwidth %g of a Gaussian, expected %g' % (h, want)


@case(st.tuples(seeds, st.integers(200, 3000), st.floats(0.1, 50), st.floats(-100, 100)), quick=100)
def bandwidth_samples(c, t):
    seed, n, scale, shift = c
    r = np.random.RandomState(seed)
    x = r.normal(size=n)
    t.nontrivial()
    h = kde.gaussian_kde_bandwidth(x)
    want = 1.06 * n ** -0.2
    assert 0.5 * want < h < 1.7 * want, 'bandwidth %g of %d Gaussian samples' % (h, n)
    a = kde.gaussian_kde_bandwidth(x * scale + shift)
    close(a, h * scale, rtol=1e-2, what='bandwidth of rescaled samples')
    bins, R = kde.bin_samples(x, nbins=200)
    d = x.max() - x.min()
    close(R, d * 1.2, what='binned range')
    pos = (x - (x.min() - 0.1 * d)) / (R / 199)
    assert np.all((bins <= pos + 1e-9) & (pos < bins + 1 + 1e-9)), 'sample binned outside its bin'
    bins, R = kde.bin_samples(x, range_min=-9., range_max=9., nbins=100)
    close(R, 18., what='given range')
    pos = (x + 9) / (18 / 99.)
    assert np.all((bins <= pos + 1e-9) & (pos < bins + 1 + 1e-9)), 'sample binned outside its bin'


def dfact(n):
    return np.prod(np.arange(1, n + 1, 2.))


@case(st.tuples(st.floats(0.05, 0.09), st.floats(0.05, 0.09), st.floats(0.45, 0.55), st.sampled_from([100, 1000, 20000]),
                st.sampled_from([128, 256]), st.floats(-0.7, 0.7)), quick=80)
def bandwidth_2d(c, t):
    sx, sy, m, N, n, rho = c
    t.nontrivial()
    g = (np.arange(n) + 0.5) / n
    Y, X = np.meshgrid(g, g, indexing='ij')
    data = np.exp(-((X - m) / sx) ** 2 / 2 - ((Y - m) / sy) ** 2 / 2)
    k = kde.KernelOptimizer2D(data, N, 0, do_correlation=False)

    def exact(i, s):
        return dfact(2 * i - 1) / (2 ** (i + 1) * math.sqrt(math.pi) * s ** (2 * i + 1))

    # roughness functionals of a smoothed Gaussian are those of a wider Gaussian
    for s in ([0, 2], [2, 0], [1, 1], [0, 0], [2, 1], [3, 1]):
        for time in (0.0, 0.0005):
            # (the mean is not part of the sum)
            ex = (-1) ** sum(s) * np.prod([exact(i, math.sqrt(w ** 2 + time)) - (i == 0) for i, w in zip(s, (sx, sy))])
            close(k.psi(s, time), ex, rtol=2e-3, what='functional %s' % s)
    hx, hy, corr = k.get_h()
    equal(corr, 0, 'kernel correlation')
    wx, wy = sx * N ** (-1 / 6.), sy * N ** (-1 / 6.)
    assert 0.6 * wx < hx < 1.8 * wx and 0.6 * wy < hy < 1.8 * wy, 'bandwidths (%g, %g), expected about (%g, %g)' % (hx, hy, wx, wy)
    hx2, hy2, _ = kde.KernelOptimizer2D(data.T.copy(), N, 0, do_correlation=False).get_h()
    close([hx2, hy2], [hy, hx], rtol=1e-2, what='bandwidths of swapped axes')
    close(kde.KernelOptimizer2D(data * 3, N, 0, do_correlation=False).get_hdiag()[:2], [hx, hy], rtol=1e-2, what='rescaled counts')
    # correlated
    q = (X - m) / sx
    p = (Y - m) / sy
    d = np.exp(-(q ** 2 + p ** 2 - 2 * rho * q * p) / 2 / (1 - rho ** 2))
    a = kde.KernelOptimizer2D(d, N, rho)
    b = kde.KernelOptimizer2D(d[:, ::-1].copy(), N, -rho)
    h1, h2 = a.get_h(), b.get_h()
    assert h1[2] * rho > -1e-4 and h2[2] * rho < 1e-4, 'kernel correlations %g, %g for data correlation %g' % (h1[2], h2[2], rho)
    C = 2 * np.array([[sx ** 2, rho * sx * sy], [rho * sx * sy, sy ** 2]])
    L = np.linalg.inv(C)
    z = 1 / (2 * math.pi * math.sqrt(np.linalg.det(C)))
    if min(sx, sy) * math.sqrt(1 - rho ** 2) > 4. / n and abs(rho) > 0.05:
        t.label('correlated')
        close([a.psi_odd([1, 3], 0), a.psi_odd([3, 1], 0)], [3 * z * L[0, 1] * L[1, 1], 3 * z * L[0, 1] * L[0, 0]], rtol=2e-2,
              what='odd functionals')
    if abs(rho) > 0.05:
        for q in [(0.03, 0.02, 0.3), (0.01, 0.05, -0.6), (0.02, 0.02, 0)]:
            close(b.AMISE([q[0], q[1], -q[2]]), a.AMISE(q), rtol=2e-2, what='expected error of mirrored data')
        # no worse than the uncorrelated kernel, by the error estimate
        g = a.get_hdiag()
        assert a.AMISE(h1) <= a.AMISE(g) * (1 + 1e-6), 'chosen kernel is worse than the diagonal one'
    assert raises(kde.KernelOptimizer2D, np.ones((4, 5)), 10, 0), 'non-square grid accepted'


class Plugin2D:
    """written out from Botev et al (2010) and arXiv:1910.13970: functionals of a density binned on [0,1]^2"""

    def __init__(self, data, N):
        n = len(data)
        p = data / data.sum()
        self.n, self.N = n, N
        self.k = np.arange(1, n)
        C = np.cos(np.pi * np.outer(self.k, np.arange(n) + 0.5) / n)
        self.a2 = (4 * C.dot(p).dot(C.T)) ** 2  # y index first
        e = np.exp(-2j * np.pi * np.outer(np.arange(n), np.arange(n)) / n)
        F = e.dot(p).dot(e)
        self.F = (F * F.conj()).real
        self.f = np.array([q if q < (n + 1) // 2 else q - n for q in range(n)], dtype=float)

    def psi(self, i, j, time):
        k = self.k * np.pi
        return (-1) ** (i + j) / 4. * np.sum(np.outer(k ** (2. * j) * np.exp(-k ** 2 * time), k ** (2. * i) * np.exp(-k ** 2 * time)) * self.a2)

    @staticmethod
    def K(j):
        return (-1) ** j * dfact(2 * j - 1) / math.sqrt(2 * math.pi)

    def plugin(self, i, j, t):
        if i + j > 4:
            return self.psi(i, j, t)
        s = self.plugin(i + 1, j, t) + self.plugin(i, j + 1, t)
        return self.psi(i, j, (-2 * (1 + 0.5 ** (i + j + 1)) / 3 * self.K(i) * self.K(j) / self.N / s) ** (1. / (2 + i + j)))

    def root(self, t):
        s = self.plugin(0, 2, t) + self.plugin(2, 0, t) + 2 * self.plugin(1, 1, t)
        return t - (2 * math.pi * self.N * s) ** (-1. / 3)


def amise(P, N, hx, hy, c):
    return (1 / (4 * math.pi * hx * hy * math.sqrt(1 - c * c) * N)
            + (hx ** 4 * P[4, 0] + hy ** 4 * P[0, 4] + 2 * hx ** 2 * hy ** 2 * P[2, 2] * (1 + 2 * c * c)
               + 4 * c * hx * hy * (hx ** 2 * P[3, 1] + hy ** 2 * P[1, 3])) / 4)


@case(st.tuples(st.lists(st.tuples(st.floats(0.3, 0.7), st.floats(0.3, 0.7), st.floats(0.04, 0.12), st.floats(0.04, 0.12),
                                   st.one_of(st.floats(0.3, 0.95), st.floats(-0.95, -0.3), st.floats(-0.9, 0.9)),
                                   st.floats(0.2, 1)), min_size=1, max_size=3),
                st.sampled_from([40, 300, 3000, 50000]), st.sampled_from([64, 97, 128]), st.sampled_from([False, False, False, True]),
                st.sampled_from([None, 1e-6, 1e-3, 0.004, 0.012, 0.05])), quick=100)
def bandwidth_2d_definition(c, t):
    modes, N, n, flat, fallback = c
    g = (np.arange(n) + 0.5) / n
    Y, X = np.meshgrid(g, g, indexing='ij')
    d = np.zeros((n, n))
    for mx, my, sx, sy, rho, w in modes:
        q, p = (X - mx) / sx, (Y - my) / sy
        d += w * np.exp(-(q ** 2 + p ** 2 - 2 * rho * q * p) / 2 / (1 - rho ** 2)) / (sx * sy * math.sqrt(1 - rho ** 2))
    if flat:
        # nearly uniform in x: the fixed point can be very wide or absent
        d = d.sum(axis=1)[:, None] * (1 + 0.01 * np.cos(np.pi * X))
    p = d / d.sum()
    mx, my = (p * X).sum(), (p * Y).sum()
    rho = float((p * (X - mx) * (Y - my)).sum() / math.sqrt((p * (X - mx) ** 2).sum() * (p * (Y - my) ** 2).sum()))
    ref = Plugin2D(d, N)
    lo, hi = ref.root(1e-12), ref.root(0.1)
    t.nontrivial(len(modes) > 1 or abs(rho) > 0.1 or flat)
    if not (np.isfinite(hi) and abs(hi) > 1e-3 and lo < 0):
        t.label('undecided fixed point')
        return
    if hi < 0 and fallback is None:
        t.label('no fixed point')
        assert raises(kde.KernelOptimizer2D, d, N, rho), 'bandwidth without a fixed point'
        return
    k = kde.KernelOptimizer2D(d, N, rho, fallback_t=fallback)
    if hi < 0:
        t.label('fallback')
        equal(k.t_star, fallback, 'width without a fixed point')
    else:
        T = kde.KernelOptimizer2D(d, N, rho).t_star
        assert abs(ref.root(T)) < 0.02 * T + 2e-5 or ref.root(T * 0.97 - 3e-6) * ref.root(T * 1.03 + 3e-6) <= 0, \
            'width %g is not a fixed point' % T
        wide = bool(fallback) and T > 0.01 and T > 2 * fallback
        t.label('too wide' if wide else 'fixed point')
        equal(k.t_star, fallback if wide else T, 'width')
    T = k.t_star
    p02, p20, p11 = ref.plugin(0, 2, T), ref.plugin(2, 0, T), ref.plugin(1, 1, T)
    if not all(np.isfinite(v) and v > 0 for v in (p02, p20, p11)):
        t.label('undefined functionals')
        return
    hx = (p02 ** 0.75 / (4 * math.pi * N * p20 ** 0.75 * (p11 + math.sqrt(p20 * p02)))) ** (1 / 6.)
    hy = hx * (p20 / p02) ** 0.25
    x, y, z = k.get_hdiag()
    close([x, y, z], [hx, hy, 0], rtol=1e-6, what='uncorrelated kernel')
    h = k.get_h()
    for s in ([0, 0], [1, 0], [0, 1], [2, 1], [1, 3]):
        close(k.func2d(s, T), ref.plugin(s[0], s[1], T), rtol=1e-6, what='plug-in functional %s' % s)
    if abs(rho) < 0.1:
        t.label('uncorrelated')
        return
    # odd functionals: from the Fourier modes; the plug-in recursion ends with sums above 8
    k.p00 = p00 = ref.plugin(0, 0, T)

    def podd(i, j, time):
        f = ref.f
        w = np.exp(-4 * math.pi ** 2 * f ** 2 * time)
        return (2 * math.pi) ** (i + j) * np.sum(np.outer(w * f ** j, w * f ** i) * ref.F)

    def odd(i, j):
        if i + j > 8:
            return podd(i, j, T)
        s = odd(i + 2, j) + odd(i, j + 2)
        kk = [1 if q == 0 else dfact(2 * q - 1) / 2. ** (q + 1) / math.sqrt(math.pi) for q in (i, j)]
        return podd(i, j, (8 * (1 - 2. ** (-i - j - 1)) / 3 * p00 * kk[0] * kk[1] / N ** 2 / s ** 2) ** (1. / (3 + i + j)))

    P = {(4, 0): p20, (0, 4): p02, (2, 2): p11, (3, 1): odd(3, 1), (1, 3): odd(1, 3)}
    sc = max(abs(podd(3, 1, 0)), abs(podd(1, 3, 0))) * 1e-6 + 1e-9 * max(p20, p02)
    close([k.func2d_odd([3, 1], T), k.func2d_odd([1, 3], T)], [P[3, 1], P[1, 3]], rtol=1e-5, atol=sc, what='odd plug-in functionals')
    for q in [(hx, hy, 0.), (hx * 1.3, hy * 0.8, 0.4), (hx, hy * 2, -0.7)]:
        e = amise(P, N, *q)
        if e > 1.5 / (4 * math.pi * q[0] * q[1] * math.sqrt(1 - q[2] ** 2) * N):
            close(k.AMISE(q), e, rtol=1e-4, what='expected error')
            close(k.AMISE(q[:2], q[2]), e, rtol=1e-4, what='expected error at given correlation')
    assert abs(h[2]) < 1 and h[0] > 0 and h[1] > 0
    chosen, diag = amise(P, N, *h), amise(P, N, hx, hy, 0)
    assert chosen <= diag * (1 + 1e-4), 'chosen kernel %s has expected error %g, the diagonal one %g' % (h, chosen, diag)
    if h[2] == 0:
        t.label('diagonal')
    elif h[2] == rho:
        t.label('correlation of the data')
    else:
        t.label('free correlation')
        assert chosen < 0.9 * diag * (1 + 1e-4), 'kernel %s is not clearly better than the diagonal one' % (h,)
