import math
import os
import re
import numpy as np
from scipy.stats import norm
from hypothesis import strategies as st
from vlib import case, close, equal, raises, read, write
from gen import seeds, name_list
from getdist import MCSamples, types
from getdist.covmat import CovMat
import kde_ref as c14

RULE = ('weighted samples of skewed, bounded, flat and two-peaked shape with 1-4 contours and limit settings; non-trivial: a one-tail or unconstrained '
        'limit, a credible interval differing from the equal-tail one, or weights')
ASSUMPTIONS = ['at least 60 samples', 'type of limit not judged where the density at the prior edge is within 3% of the peak of the deciding level',
               'the density itself is that of C14']

CONTOURS = st.lists(st.sampled_from([0.5, 0.68, 0.9, 0.95, 0.99]), min_size=1, max_size=4, unique=True).map(sorted)


def fine(d, x):
    return np.interp(x, d.x, d.P)


def level_of(d, c):
    """density level above which there is probability c"""
    X = np.linspace(d.x[0], d.x[-1], len(d.x) * 40)
    P = d.Prob(X)
    o = np.argsort(-P)
    cs = np.cumsum(P[o])
    return P[o][np.searchsorted(cs, c * cs[-1])]


@case(st.tuples(c14.sample_specs(d=1, max_n=800), CONTOURS, st.sampled_from([None, 0., 0.05, 0.5, 2.]), st.booleans(), st.sampled_from([0.3, 0.15, 0.6])),
      quick=400, shards=3)
def limits(c, t):
    spec, contours, threshold, force, smooth = c
    spec = dict(spec, n=spec['n'] + 60)
    x, w, L, ranges = c14.make(spec)
    opts = dict(contours=contours, smooth_scale_1D=smooth)
    if threshold is not None:
        opts['credible_interval_threshold'] = threshold
    if force:
        opts['force_twotail'] = True
    s = c14.mc(x, w, L, ranges, **opts)
    m = s.getMargeStats()
    par = m.parWithName('p')
    v = x[:, 0]
    mean = np.sum(v * w) / w.sum()
    sd = math.sqrt(np.sum(w * (v - mean) ** 2) / w.sum())
    close(par.mean, mean, rtol=1e-9, atol=1e-10 * sd, what='mean')
    close(par.err, sd, rtol=1e-8, what='standard deviation')
    close(m.limits, contours, what='confidence levels')
    equal(len(par.limits), len(contours), 'number of limits')
    d = s.get1DDensity('p')
    p = c14.ref_range(v, w, ranges['p'])
    t.nontrivial(spec['w'] != 'unit')
    step = d.x[1] - d.x[0]

    def q(f):
        """sample quantile and its neighbours (rounding)"""
        return [c14.quantile(v, w, min(max(f + e, 0), 1)) for e in (-1e-9, 0, 1e-9)]

    def is_q(a, f, what):
        b = q(f)
        assert min(b) - 1e-9 * sd <= a <= max(b) + 1e-9 * sd, '%s: got %.10g, expected %.10g' % (what, a, b[1])

    X = np.linspace(d.x[0], d.x[-1], len(d.x) * 20)
    F = np.cumsum(np.interp(X, d.x, d.P))
    F /= F[-1]
    prev = None
    for conf, lim in zip(contours, par.limits):
        what = '%g limit' % conf
        lev = level_of(d, conf)
        lo_open, hi_open = d.P[0] > lev, d.P[-1] > lev
        sure = abs(d.P[0] - lev) > 0.03 and abs(d.P[-1] - lev) > 0.03
        tag = lim.limitTag()
        assert tag in ('two', '>', '<', 'none'), 'limit tag %r' % tag
        if prev is not None and (tag != 'two' or threshold == 2.):
            assert lim.lower <= prev[0] + 1e-9 * sd or tag != prev[2], '%s inside the narrower one' % what
            assert lim.upper >= prev[1] - 1e-9 * sd or tag != prev[2], '%s inside the narrower one' % what
        prev = (lim.lower, lim.upper, tag)
        if force and not (lo_open and hi_open and not sure):
            equal(tag, 'two', 'type of limit with force_twotail')
        elif sure and not force:
            want = 'none' if lo_open and hi_open else '>' if lo_open else '<' if hi_open else 'two'
            # no constraint also if the density at both prior limits is above that at the ends of a Gaussian's limits
            gauss = np.exp(-norm.ppf((1 - conf) / 2) ** 2 / 2)
            if p.bot and p.top and min(d.P[0], d.P[-1]) > gauss:
                want = 'none'
            if not (p.bot and p.top) or abs(min(d.P[0], d.P[-1]) - gauss) > 1e-3:
                equal(tag, want, 'type of ' + what)
        if tag == 'none':
            t.nontrivial()
            t.label('none')
            close([lim.lower, lim.upper], [p.lo, p.hi], rtol=1e-9, atol=1e-9 * sd, what='unconstrained range')
        elif tag == '>':
            t.nontrivial()
            t.label('one tail')
            close(lim.lower, p.lo, rtol=1e-9, atol=1e-9 * sd, what='lower end of one-tail limit')
            is_q(lim.upper, conf, 'upper limit')
        elif tag == '<':
            t.nontrivial()
            t.label('one tail')
            close(lim.upper, p.hi, rtol=1e-9, atol=1e-9 * sd, what='upper end of one-tail limit')
            is_q(lim.lower, 1 - conf, 'lower limit')
        else:
            eq = [q((1 - conf) / 2), q((1 + conf) / 2)]
            thr = 0.05 if threshold is None else threshold
            diff = abs(float(np.squeeze(d.Prob(eq[0][1]))) - float(np.squeeze(d.Prob(eq[1][1]))))
            near = abs(diff - thr) < 1e-6 + 0.02 * thr
            equal_tail = diff < thr or (force and (lo_open or hi_open))
            if equal_tail and not near:
                t.label('equal tails')
                is_q(lim.lower, (1 - conf) / 2, 'lower ' + what)
                is_q(lim.upper, (1 + conf) / 2, 'upper ' + what)
            elif not near and sure:
                t.nontrivial()
                t.label('credible interval')
                close(np.ravel([d.Prob(lim.lower), d.Prob(lim.upper)]), [lev, lev], atol=0.03, what='density at the ends of the ' + what)
                outside = np.interp(X, d.x, d.P)[(X < lim.lower) | (X > lim.upper)]
                mass = np.interp(lim.upper, X, F) - np.interp(lim.lower, X, F)
                if np.all(outside < lev + 0.03):
                    # interval is the whole region above the level, or contains a dip
                    assert mass > conf - 0.03, '%s holds probability %g' % (what, mass)
                    inside = np.interp(X, d.x, d.P)[(X > lim.lower) & (X < lim.upper)]
                    if np.all(inside > lev - 0.002) and np.all(outside < lev + 0.002):
                        close(mass, conf, atol=0.03, what='probability in the ' + what)
        is_one = tag in '<>'
        equal(lim.onetail_upper, tag == '>', 'upper limit flag')
        equal(lim.onetail_lower, tag == '<', 'lower limit flag')
        equal(lim.limitType(), dict([('two', 'two tail'), ('>', 'one tail upper limit'), ('<', 'one tail lower limit'), ('none', 'none')])[tag], 'limit type')
        # inline latex of that limit: direction
        tex = s.getInlineLatex('p', limit=contours.index(conf) + 1)
        if is_one:
            assert tex.startswith('p < ' if tag == '>' else 'p > '), 'latex %r for %s' % (tex, lim.limitType())
        elif tag == 'two':
            assert tex.startswith('p = ') and '<' not in tex and '>' not in tex, 'latex %r for %s' % (tex, lim.limitType())


@case(st.tuples(c14.sample_specs(d=2, max_n=300), CONTOURS, seeds, st.sampled_from([1., 5., 100.])), quick=300, shards=2)
def likelihood_statistics(c, t):
    spec, contours, seed, spread = c
    x, w, _, ranges = c14.make(spec)
    r = np.random.RandomState(seed)
    n = len(w)
    L = r.choice([0., 500., -20.]) + r.gamma(1, spread, size=n)
    if r.randint(2):
        L = np.round(L * 4) / 4
    s = c14.mc(x, w, L, ranges, contours=contours)
    t.nontrivial(spec['w'] != 'unit')
    m = s.getLikeStats()
    W = w.sum()
    best = L.min()
    close(m.logLike_sample, best, what='best sample')
    rel = L - best
    close(m.meanLogLike, np.sum(w * L) / W, rtol=1e-9, atol=1e-9, what='mean log likelihood')
    close(m.logMeanLike, best - np.log(np.sum(w * np.exp(-rel)) / W), rtol=1e-9, atol=1e-9, what='log mean likelihood')
    if rel.max() < 30:
        close(m.logMeanInvLike, best + np.log(np.sum(w * np.exp(rel)) / W), rtol=1e-9, atol=1e-9, what='log mean inverse likelihood')
    else:
        equal(m.logMeanInvLike, None, 'mean inverse likelihood of a wide range')
    close(m.complexity, 2 * (np.sum(w * L) / W - best), rtol=1e-8, atol=1e-8, what='complexity')
    assert m.logMeanLike <= m.meanLogLike + 1e-9, 'Jensen'
    for j, name in enumerate('pq'):
        par = m.parWithName(name)
        v = x[:, j]
        assert par.bestfit_sample in v[L == best], 'best-fit sample %r' % par.bestfit_sample
        for k, conf in enumerate((contours * 2 if len(contours) == 1 else contours)[:2]):
            # smallest and largest regions of highest likelihood consistent with ties
            cut = conf * W
            o = np.argsort(L, kind='stable')
            cs = np.cumsum(w[o])
            nr = max(1, np.searchsorted(cs, cut))
            # the sample at which the requested weight is reached has this likelihood, whatever the order of equal ones
            l0, l1 = [L[o][min(np.searchsorted(cs, cut * f), n - 1)] for f in (1 - 1e-9, 1 + 1e-9)]
            inner, outer = v[L < l0 - 1e-12], v[L <= l1 + 1e-12]
            bot, top = par.ND_limit_bot[k], par.ND_limit_top[k]
            assert outer.min() <= bot and top <= outer.max(), 'N-D region of %s (%g) reaches beyond the likelihood level' % (name, conf)
            if len(inner):
                assert bot <= inner.min() and top >= inner.max(), 'N-D region of %s (%g) misses samples of higher likelihood' % (name, conf)
            if len(np.unique(L)) == n:
                near = np.any(np.abs(cs - cut) < 1e-9 * W)
                if not near:
                    reg = v[o][:nr]
                    close([bot, top], [reg.min(), reg.max()], what='N-D limits')
    # text form
    f = t.dir() + '/x.likestats'
    write(f, str(m))
    back = types.LikeStats(f)
    for a, b in [(back.logLike_sample, m.logLike_sample), (back.meanLogLike, m.meanLogLike), (back.logMeanLike, m.logMeanLike)]:
        close(a, b, atol=1e-6, what='value in likestats file')
    if m.logMeanInvLike is not None:
        if abs(m.logMeanInvLike) > 1e-9:
            close(back.logMeanInvLike, m.logMeanInvLike, atol=1e-6, what='value in likestats file')
    else:
        equal(back.logMeanInvLike, None, 'value in likestats file')
    rows = [line.split() for line in str(m).strip().split('\n')[-2:]]
    for row, name in zip(rows, 'pq'):
        par = m.parWithName(name)
        equal(row[0], name, 'row of likestats')
        close([float(u) for u in row[1:6]], [par.bestfit_sample, par.ND_limit_bot[0], par.ND_limit_top[0], par.ND_limit_bot[1], par.ND_limit_top[1]],
              rtol=2e-7, what='row of likestats')


LABELS = st.sampled_from(['', 'x', r'\Omega_m h^2', 'two words', r'H_0 [km/s]', '10^9 A_s', 'a>b', r'\sigma_8 * 2'])


@case(st.tuples(name_list(1, 5), st.lists(LABELS, min_size=5, max_size=5), st.lists(st.booleans(), min_size=5, max_size=5), CONTOURS, seeds), quick=250)
def stats_file(c, t):
    """.margestats written and loaded again"""
    names, labels, derived, contours, seed = c
    r = np.random.RandomState(seed)
    m = types.MargeStats()
    m.limits = np.array(contours)
    m.hasBestFit = False
    from getdist.paramnames import ParamInfo
    for name, label, der in zip(names, labels, derived):
        par = ParamInfo(name=name, derived=der)
        par.label = label
        sc = 10. ** r.randint(-30, 30)
        par.mean, par.err = r.normal() * sc, abs(r.normal()) * sc
        par.limits = [types.ParamLimit([r.normal() * sc, r.normal() * sc], r.choice(['two', '>', '<', 'none'])) for _ in contours]
        m.names.append(par)
    t.nontrivial('' in labels[:len(names)] or any(derived[:len(names)]))
    f = t.dir() + '/x.margestats'
    m.saveAsText(f)
    back = types.MargeStats(f)
    equal(back.list(), names, 'names')
    rows = read(f).split('\n')
    heads = [h + str(i + 1) for i in range(len(contours)) for h in ('lower', 'upper', 'limit')]
    equal([x.split() for x in rows if x.startswith('parameter ')], [['parameter', 'mean', 'sddev'] + heads], 'column headings')
    heads = [h % round(c * 100) for c in m.limits for h in ('lower_%.0f%%', 'upper_%.0f%%')]
    equal([x for x in m.headerLine(True)[0].split() if x != 'type'], ['parameter', 'mean', 'sddev'] + heads, 'headings with levels')
    close(back.limits, contours, what='levels')
    for a, b in zip(back.names, m.names):
        equal(a.isDerived, b.isDerived, 'derived flag')
        equal(a.label, b.label, 'label')
        equal(a.getLabel(), b.getLabel(), 'label')
        close([a.mean, a.err], [b.mean, b.err], rtol=1e-7, what='mean and deviation')
        for u, v in zip(a.limits, b.limits):
            close([u.lower, u.upper], [v.lower, v.upper], rtol=1e-7, what='limits')
            equal(u.limitTag(), v.limitTag(), 'tag')
        equal(len(a.limits), len(b.limits), 'number of limits')
    equal(str(types.MargeStats(f)), str(back), 'text')


@case(st.tuples(c14.sample_specs(d=2, max_n=200), st.booleans(), st.booleans(), seeds), quick=200, shards=2)
def matrices_and_points(c, t):
    """covariance file, correlation file, best-fit and sample dictionaries"""
    spec, der, fixed, seed = c
    x, w, _, ranges = c14.make(spec)
    r = np.random.RandomState(seed)
    n = len(w)
    L = r.gamma(2, 1., size=n)
    cols = [x]
    names = ['p', 'q']
    if fixed:
        cols.append(np.full((n, 1), 0.25))
        names.append('const')
    if der:
        cols.append(x[:, :1] + x[:, 1:2] * 2 + r.normal(size=(n, 1)))
        names.append('d*')
    t.nontrivial(der or fixed)
    s = MCSamples(samples=np.hstack(cols), weights=w, loglikes=L, names=names, ranges=ranges, settings={'ignore_rows': 0})
    ref = [(x[:, 0], 'p'), (x[:, 1], 'q')]
    W = w.sum()
    mu = [np.sum(w * a) / W for a, _ in ref]
    C = np.array([[np.sum(w * (a - ma) * (b - mb)) / W for (b, _), mb in zip(ref, mu)] for (a, _), ma in zip(ref, mu)])
    cm = s.getCovMat()
    equal(list(cm.paramNames), ['p', 'q'], 'parameters of the covariance')
    close(cm.matrix, C, rtol=1e-7, atol=1e-9 * math.sqrt(C[0, 0] * C[1, 1]), what='covariance of base parameters')
    f = t.dir() + '/x.covmat'
    s.writeCovMatrix(f)
    back = CovMat(f)
    equal(list(back.paramNames), ['p', 'q'], 'parameters in covmat file')
    close(back.matrix, C, rtol=1e-6, atol=1e-8 * math.sqrt(C[0, 0] * C[1, 1]), what='covmat file')
    out = t.dir()
    s.writeCorrelationMatrix(out + '/x.corr')
    corr = np.atleast_2d(np.loadtxt(out + '/x.corr'))
    allc = [x[:, 0], x[:, 1]] + ([cols[-1][:, 0]] if der else [])
    z = [(a - np.sum(w * a) / W) for a in allc]
    z = [a / math.sqrt(np.sum(w * a * a) / W) for a in z]
    close(corr, [[np.sum(w * a * b) / W for b in z] for a in z], atol=1e-6, what='correlation file')
    # single samples as dictionaries
    for ix, best in [(int(r.randint(n)), False), (int(np.argmin(L)), True)]:
        for wd in (True, False):
            for wf in (True, False):
                d = s.getParamBestFitDict(best_sample=True, want_derived=wd, want_fixed=wf) if best else s.getParamSampleDict(ix, want_derived=wd, want_fixed=wf)
                want = dict(p=x[ix, 0], q=x[ix, 1])
                if wd and der:
                    want['d'] = cols[-1][ix, 0]
                if wf and fixed:
                    want['const'] = 0.25
                got = {k: v for k, v in d.items() if k not in ('weight', 'loglike')}
                equal(sorted(got), sorted(want), 'parameters of the sample dictionary (derived %s, fixed %s)' % (wd, wf))
                for k in want:
                    close(got[k], want[k], rtol=1e-12, what=k)
                close(d['weight'], w[ix], what='weight')
                close(d['loglike'], L[ix], what='loglike')


@case(st.tuples(c14.sample_specs(d=2, max_n=300), st.sampled_from([2., 0.125, 1024.]), st.sampled_from([0., 3., -50.])), quick=150, shards=2)
def units(c, t):
    """statistics scale with the parameter's units, and do not depend on the other parameters"""
    spec, a, b = c
    spec = dict(spec, n=spec['n'] + 50)
    x, w, L, ranges = c14.make(spec)
    t.nontrivial()
    lim = [None if q is None else q * a + b for q in ranges['p']]
    y = x[:, 0] * a + b
    if lim[0] is not None:
        lim[0] = min(lim[0], y.min())
    if lim[1] is not None:
        lim[1] = max(lim[1], y.max())
    o = dict(smooth_scale_1D=0.3)
    m0 = c14.mc(x, w, L, ranges, **o).getMargeStats().parWithName('p')
    m1 = c14.mc(y[:, None], w, L, {'p': lim}, **o).getMargeStats().parWithName('p')
    m2 = c14.mc(x[:, :1], w, L, {'p': ranges['p']}, **o).getMargeStats().parWithName('p')
    sd = m0.err
    close(m1.mean, m0.mean * a + b, rtol=1e-8, atol=1e-8 * sd * a, what='mean in other units')
    close(m1.err, sd * a, rtol=1e-7, what='deviation in other units')
    gap = np.max(np.diff(np.sort(x[:, 0])))
    for u0, u1, u2 in zip(m0.limits, m1.limits, m2.limits):
        equal(u2.limitTag(), u0.limitTag(), 'type of limit with another parameter present')
        close([u2.lower, u2.upper], [u0.lower, u0.upper], rtol=1e-7, atol=1e-7 * sd, what='limits with another parameter present')
        if u0.limitTag() == u1.limitTag():
            close([(u1.lower - b) / a, (u1.upper - b) / a], [u0.lower, u0.upper], rtol=1e-6, atol=gap + 0.05 * sd, what='limits in other units')


KIND = st.sampled_from(['free', 'far', 'at', 'half', 'touch'])


@case(st.tuples(st.lists(st.tuples(KIND, KIND, st.sampled_from([0.01, 1., 300.]), st.sampled_from([0., 5., -40.]), st.booleans()), min_size=1, max_size=4), st.integers(1, 2),
                st.sampled_from([None, None, 1, 2, 3, 4]), seeds), quick=300, thorough=4000, shards=2)
def bounds_and_latex(c, t):
    """only limits that cut the samples off are bounds, and each parameter's latex is its own"""
    pars, limit, figs, seed = c
    r = np.random.RandomState(seed)
    n = 500
    names = ['p%d' % i for i in range(len(pars))]
    ranges, cols, low, high = {}, [], {}, {}
    for name, (lo, hi, sc, off, _) in zip(names, pars):
        # a normal distribution, cut at its peak or one deviation away from it
        x = r.normal(size=4000)
        cut = {'free': None, 'far': 30., 'at': 0., 'half': 1., 'touch': 1.}
        a, b = cut[lo], cut[hi]
        if lo == hi == 'at':
            b = 1.
        ok = np.ones(len(x), dtype=bool)
        if a is not None:
            ok &= x > -a
        if b is not None:
            ok &= x < b
        x = x[ok][:n]
        cols.append(x * sc + off)
        ranges[name] = [None if a is None else -a * sc + off, None if b is None else b * sc + off]
        if a is not None and a < 2:
            low[name] = ranges[name][0]
        if b is not None and b < 2:
            high[name] = ranges[name][1]
    n = min(len(x) for x in cols)
    s = MCSamples(samples=np.column_stack([x[:n] for x in cols]), names=[q + '*' * k[4] for q, k in zip(names, pars)], labels=['L_{%s}' % q for q in names],
                  ranges=ranges, settings={'ignore_rows': 0})
    t.nontrivial(0 < len(low) + len(high) < 2 * len(names))
    b = s.getBounds()
    for got, want, full, what in ((b.lower, low, 0, 'lower'), (b.upper, high, 1, 'upper')):
        equal(sorted(got), sorted(want), '%s bounds (ranges %s)' % (what, ranges))
        for q in want:
            equal(got[q], want[q], '%s bound of %s' % (what, q))
        for q in names:
            equal([s.getLower(q), s.getUpper(q)][full], ranges[q][full], '%s limit of %s' % (what, q))
    # text of each parameter
    form = types.NoLineTableFormatter()
    if figs:
        form.numberFormatter.err_sf = figs
    kw = {} if figs is None else {'err_sig_figs': figs}
    m = s.getMargeStats()
    want = {q: m.texValues(form, q, limit=limit)[0] for q in names}
    ask = [names[i] for i in r.randint(len(names), size=3)] + ['missing'] + names
    labels, texs = s.getLatex(ask, limit=limit, **kw)
    equal(labels, [None if q == 'missing' else 'L_{%s}' % q for q in ask], 'labels')
    equal(texs, [want.get(q) for q in ask], 'text')
    labels, texs = s.getLatex(limit=limit, **kw)
    equal([labels, texs], [['L_{%s}' % q for q in names], [want[q] for q in names]], 'text of all parameters')
    for q in names:
        tex = s.getInlineLatex(q, limit=limit, **kw)
        equal(tex, 'L_{%s} %s%s' % (q, '' if want[q][0] in '<>' else '= ', want[q]), 'constraint')
        equal(s.getLatex(q, limit=limit, **kw), tex, 'constraint of a single parameter')

        err = re.search(r'\\pm (\d*\.\d+)', tex)
        if err and figs:
            equal(len(err.group(1).replace('.', '').lstrip('0')), figs, 'figures of the error in ' + tex)
    assert raises(s.getInlineLatex, 'missing', limit=limit, exc=ValueError), 'constraint of a missing parameter'
