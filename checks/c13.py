import itertools
import numpy as np
from scipy.interpolate import CubicSpline
from hypothesis import strategies as st
from vlib import case, close, equal, raises
from gen import seeds
from getdist import densities as de

RULE = ('gridded densities in 1-3 dimensions (smooth mixtures, cut at edges, rough, flat, with zeros; 4-200 points an axis, any '
        'offset and spacing), histories of normalisation and evaluation; non-trivial: not constant')
ASSUMPTIONS = ['regular grids with at least 4 points on each axis', 'credible intervals are accurate to a step of the fine grid '
               'they are computed on (1e-3 in mass by default)']


def grid_density(n, seed, kind, lo, width):
    r = np.random.RandomState(seed)
    x = lo + width * np.arange(n) / (n - 1)
    u = np.arange(n) / (n - 1)
    if kind == 'rough':
        p = r.uniform(0.1, 1, size=n)
    elif kind == 'flat':
        p = 1 + 0.3 * np.sin(u * 5 + r.uniform(0, 6))
    else:
        p = np.zeros(n)
        for _ in range(1 + (kind == 'double')):
            m = r.uniform(0.25, 0.75) if kind != 'edge' else r.choice([-0.1, 0, 1.05])
            s = r.uniform(3. / n, 0.25) if kind != 'edge' else r.uniform(0.15, 0.6)
            p += r.uniform(0.4, 1) * np.exp(-((u - m) / s) ** 2 / 2)
    return x, p * 10. ** r.randint(-3, 4)


KIND = st.sampled_from(['smooth', 'double', 'edge', 'rough', 'flat'])
GRID = st.tuples(st.integers(4, 200), seeds, KIND, st.floats(-100, 100), st.floats(0.01, 1000))


def trapz(p, spacing):
    for h in reversed(spacing):
        p = (p[..., 1:] + p[..., :-1]).sum(axis=-1) * h / 2
    return p


@case(st.tuples(GRID, st.lists(st.sampled_from(['integral', 'max', 'copy', 'eval', 'set']), max_size=4)), quick=500)
def one_d(c, t):
    g, ops = c
    x, p = grid_density(*g)
    t.nontrivial(g[2] != 'flat')
    orig = p.copy()
    d = de.Density1D(x, p.copy())
    cur = p.copy()
    h = x[1] - x[0]
    r = np.random.RandomState(g[1])
    for op in ops + ['eval']:
        if op in ('integral', 'max'):
            before = d.P
            keep = before.copy()
            res = d.normalize(op)
            assert res is d, 'normalize does not return the density'
            close(before, keep, what='values given by the caller after a copying normalisation')
            cur = cur / (trapz(cur, [h]) if op == 'integral' else cur.max())
        elif op == 'copy':
            d.normalize('max', in_place=True)
            cur = cur / cur.max()
        elif op == 'set':
            cur = orig[::-1] * 2
            d.setP(cur.copy())
        sc = cur.max()
        close(d.P, cur, rtol=1e-9, what='density')
        close(d.integrate(d.P), trapz(cur, [h]), rtol=1e-9, what='integral')
        close(d.norm_integral(), trapz(cur, [h]), rtol=1e-9, what='integral')
        ref = CubicSpline(x, cur)
        pts = x[0] + (x[-1] - x[0]) * r.uniform(0, 1, size=7)
        tol = 1e-7 * sc
        close(d.Prob(pts), ref(pts), rtol=1e-7, atol=tol, what='interpolated density')
        close(d(list(pts)), ref(pts), rtol=1e-7, atol=tol, what='interpolated density')
        close(np.ravel(d.Prob(pts[0])), [ref(pts[0])], rtol=1e-7, atol=tol, what='interpolated density')
        close(d.Prob(x), cur, rtol=1e-9, atol=1e-9 * sc, what='density at grid points')
        close(d.Prob(pts, derivative=1), ref(pts, 1), rtol=1e-6, atol=1e-6 * sc / h, what='derivative')
        close(d.Prob(np.array([x[0] - 2 * h, x[-1] + h])), [0, 0], what='density outside the grid')
    close(d.bounds(), (x[0], x[-1]), what='bounds')
    equal(tuple(de.Density1D(x, p, view_ranges=(1, 2)).bounds()), (1, 2), 'view bounds')
    assert raises(d.normalize, by='nothing'), 'unknown normalisation accepted'
    assert raises(de.Density1D, x, p[:-1]), 'size mismatch accepted'
    assert raises(de.Density1D(x).normalize, 'max'), 'normalised an empty density'


@case(st.tuples(GRID, st.lists(st.floats(0.02, 0.995), min_size=1, max_size=3), st.sampled_from([None, None, 5, 30, 100])), quick=400)
def limits(c, t):
    g, ps, acc = c
    x, p = grid_density(*g)
    n = len(x)
    t.nontrivial(g[2] != 'flat')
    d = de.Density1D(x, p)
    factor = acc or max(2, 20000 // n)
    N = (n - 1) * factor * 4
    fine = x[0] + (x[-1] - x[0]) * np.arange(N + 1) / N
    spl = CubicSpline(x, p)
    f = spl(fine)
    if f.min() < 0:
        t.label('overshoot')
        if g[2] == 'rough':
            return
    wt = np.full(N + 1, 1.)
    wt[[0, -1]] = 0.5
    tot = np.sum(f * wt)
    step = (x[-1] - x[0]) / ((n - 1) * factor)
    # largest mass of a step
    mtol = 4 * f.max() / (tot / 4) + 1e-5
    slope = np.max(np.abs(np.diff(f))) * 4 * 1.5  # over a step
    # error of linear interpolation within a step
    curv = np.max(np.abs(np.diff(f, 2))) * 16 / 8 * 1.5 + 1e-9 * f.max()
    got = d.getLimits(ps, accuracy_factor=acc)
    equal(len(got), len(ps), 'number of limits')
    one = d.getLimits(ps[0], accuracy_factor=acc)
    equal(tuple(one), tuple(got[0]), 'single limit')
    equal([tuple(q) for q in d.getLimits(np.array(ps), accuracy_factor=acc)], [tuple(q) for q in got], 'limits of an array')
    equal([tuple(q) for q in d.getLimits(ps, interpGrid=d.initLimitGrids(acc))], [tuple(q) for q in got], 'limits with a given grid')
    for q, (mn, mx, bot, top) in zip(ps, got):
        assert x[0] <= mn <= mx <= x[-1], 'limits [%g, %g] outside the grid' % (mn, mx)
        t.label('one tail', bool(bot) != bool(top))
        if bot:
            close(mn, x[0], what='missing lower limit')
        if top:
            close(mx, x[-1], what='missing upper limit')
        levels = [float(spl(v)) for v, lim in ((mn, bot), (mx, top)) if not lim]
        if not levels:
            # no tail excluded: the end points are above the level enclosing p
            lev = min(f[0], f[-1])
            assert np.sum((f * wt)[f > lev * (1 + 1e-9)]) / tot < q + mtol, 'limits at both ends but %g is enclosed within' % q
            continue
        if len(levels) == 2:
            close(levels[1], levels[0], rtol=1e-6, atol=curv, what='densities at the two limits')
        lev = np.mean(levels)
        above = np.sum((f * wt)[f > lev + slope]) / tot
        upto = np.sum((f * wt)[f > lev - slope]) / tot
        assert above - mtol <= q <= upto + mtol, 'region above the density at limits has mass %g-%g, expected %g' % (above, upto, q)
        if bot:
            assert f[0] >= lev - slope, 'lower limit missing'
        else:
            assert np.all(f[fine < mn - step] <= lev + slope), 'denser point below the lower limit'
        if top:
            assert f[-1] >= lev - slope, 'upper limit missing'
        else:
            assert np.all(f[fine > mx + step] <= lev + slope), 'denser point above the upper limit'
    for (a, ra), (b, rb) in itertools.permutations(zip(ps, got), 2):
        if a < b:
            assert rb[0] <= ra[0] + step and rb[1] >= ra[1] - step, 'limits not nested'


@case(st.tuples(GRID, st.sampled_from([0.3, 0.5, 0.68, 0.95]), st.floats(0.1, 10), st.floats(-5, 5)), quick=200)
def limit_maps(c, t):
    """shift, rescaling and reflection of the grid"""
    g, q, scale, shift = c
    x, p = grid_density(*g)
    t.nontrivial()
    w = x[-1] - x[0]
    mn, mx, bot, top = de.Density1D(x, p).getLimits(q)
    d = de.Density1D(x[0] + (x - x[0]) * scale + shift, p * 3)
    a = d.getLimits(q)
    close([(a[0] - shift - x[0]) / scale + x[0], (a[1] - shift - x[0]) / scale + x[0]], [mn, mx], atol=1e-4 * w, what='rescaled limits')
    equal((bool(a[2]), bool(a[3])), (bool(bot), bool(top)), 'tails')
    if g[2] in ('rough', 'flat'):
        return
    a = de.Density1D(-x[::-1], p[::-1].copy()).getLimits(q)
    close([-a[1], -a[0]], [mn, mx], atol=1e-3 * w, what='reflected limits')


@case(st.tuples(GRID, GRID, seeds, st.lists(st.sampled_from(['integral', 'max', 'inplace', 'eval']), max_size=3)), quick=200)
def two_d(c, t):
    gx, gy, seed, ops = c
    gx, gy = [min(gx[0], 40)] + list(gx[1:]), [min(gy[0], 50)] + list(gy[1:])
    (x, px), (y, py) = grid_density(*gx), grid_density(*gy)
    r = np.random.RandomState(seed)
    p = py[:, None] * px[None, :] * (1 + 0.3 * r.uniform(size=(len(y), len(x))))
    t.nontrivial()
    d = de.Density2D(x, y, p.copy())
    cur = p.copy()
    hs = [y[1] - y[0], x[1] - x[0]]
    for op in ops + ['eval']:
        if op == 'inplace':
            d.normalize('integral', in_place=True)
            cur = cur / trapz(cur, hs)
        elif op != 'eval':
            before = d.P
            keep = before.copy()
            d.normalize(op)
            close(before, keep, what='values given by the caller after a copying normalisation')
            cur = cur / (trapz(cur, hs) if op == 'integral' else cur.max())
        sc = cur.max()
        close(d.P, cur, rtol=1e-9, what='density')
        close(d.integrate(d.P), trapz(cur, hs), rtol=1e-9, what='integral')
        close(d.norm_integral(), trapz(cur, hs), rtol=1e-9, what='integral')
        i, j = r.randint(len(y), size=5), r.randint(len(x), size=5)
        close(d.Prob(x[j], y[i]), cur[i, j], rtol=1e-7, atol=1e-9 * sc, what='density at grid points')
        close(d(x, y), cur.T, rtol=1e-7, atol=1e-9 * sc, what='density over the grid')
        close(d.Prob(x, y, grid=True), cur.T, rtol=1e-7, atol=1e-9 * sc, what='density over the grid')
        u, v = r.uniform(x[0], x[-1], size=4), r.uniform(y[0], y[-1], size=4)
        ref = [CubicSpline(y, CubicSpline(x, cur, axis=1)(a))(b) for a, b in zip(u, v)]
        close(d.Prob(u, v), ref, rtol=1e-6, atol=1e-6 * sc, what='interpolated density')
    close(np.array(d.bounds()), [(x[0], x[-1]), (y[0], y[-1])], what='bounds')
    assert raises(de.Density2D, x, y, np.ones((len(y) + 1, len(x)))), 'size mismatch accepted'


@case(st.tuples(st.lists(st.integers(4, 12), min_size=1, max_size=3), seeds, st.sampled_from(['edge', 'peak', 'rough', 'ties', 'zeros']),
                st.lists(st.floats(0.05, 0.99), min_size=1, max_size=4), st.booleans()), quick=1000)
def contours(c, t):
    shape, seed, kind, cs, half = c
    r = np.random.RandomState(seed)
    u = np.meshgrid(*[np.arange(n) / (n - 1) for n in shape], indexing='ij')
    if kind == 'edge':
        p = np.exp(-sum(((a - r.choice([0, 1, 0.5])) / r.uniform(0.2, 1)) ** 2 for a in u))
    elif kind == 'peak':
        p = np.exp(-sum(((a - 0.5) / r.uniform(0.1, 0.4)) ** 2 for a in u))
    else:
        p = r.uniform(0.01, 1, size=shape)
        if kind == 'ties':
            p = np.ceil(p * 4)
        if kind == 'zeros':
            p *= r.uniform(size=shape) < 0.7
            p.ravel()[0] += 0.1
    wt = np.ones(shape)
    if half:
        for k, n in enumerate(shape):
            e = np.ones(n)
            e[[0, -1]] = 0.5
            wt = wt * e.reshape([-1 if j == k else 1 for j in range(len(shape))])
    keep = p.copy()
    mass = p * wt
    tot = mass.sum()
    t.nontrivial(np.ptp(p) > 0)
    targets = [(1 - q) * tot for q in cs]
    try:
        levels = de.getContourLevels(p, cs, half_edge=half)
    except de.DensitiesError:
        v = np.sort(p.ravel())
        assert min(targets) <= mass[p == v[0]].sum() * (1 + 1e-9), 'no contour level for %s' % cs
        t.label('outside range')
        return
    close(p, keep, what='density after finding levels')
    for q, target, lev in zip(cs, targets, levels):
        below = mass[p < lev * (1 - 1e-9)].sum()
        nxt = p[p >= lev * (1 - 1e-9)]
        assert len(nxt), 'level %g above the density' % lev
        upto = mass[p <= nxt.min() * (1 + 1e-9)].sum()
        assert below <= target * (1 + 1e-8) + 1e-12 * tot and upto >= target * (1 - 1e-8) - 1e-12 * tot, \
            'level %g for %g: mass below %g-%g, expected %g' % (lev, q, below / tot, upto / tot, 1 - q)
        t.label('found')
    if half:
        axes = [np.arange(float(n)) for n in shape]
        d = [lambda: de.Density1D(axes[0], p), lambda: de.Density2D(axes[1], axes[0], p), lambda: de.DensityND(axes[::-1], p)][len(shape) - 1]()
        close(d.getContourLevels(cs), levels, what='levels of the density')


@case(st.tuples(st.lists(st.integers(3, 7), min_size=2, max_size=3), seeds), quick=150)
def n_d(c, t):
    shape, seed = c
    r = np.random.RandomState(seed)
    p = r.uniform(size=shape)
    axes = [r.uniform(-3, 3) + np.arange(n) * r.uniform(0.1, 3) for n in shape]
    xs = axes[::-1]
    t.nontrivial()
    d = de.DensityND(xs, p.copy())
    hs = [a[1] - a[0] for a in axes]
    close(d.integrate(p), trapz(p, hs), what='integral')
    i = tuple(r.randint(n) for n in shape)
    close(np.ravel(d.Prob([[a[k] for a, k in zip(xs, i[::-1])]])), [p[i]], rtol=1e-7, what='density at a grid point')
    d.normalize()
    close(d.norm_integral(), 1., what='normalised integral')
    close(np.array(d.bounds()), [(a[0], a[-1]) for a in xs], what='bounds')
    # multilinear between grid points
    i = tuple(r.randint(n - 1) for n in shape)
    mid = [[(a[k] + a[k + 1]) / 2 for a, k in zip(xs, i[::-1])]]
    ref = np.mean([d.P[tuple(np.array(i) + o)] for o in itertools.product((0, 1), repeat=len(shape))])
    close(np.ravel(d.Prob(mid)), [ref], rtol=1e-7, what='density between grid points')
