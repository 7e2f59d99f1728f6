"""Plots: curves, contours, points, limits, labels, markers and legends are those of the samples and parameters asked for."""
import os
import matplotlib
matplotlib.use('Agg')
import logging
import warnings
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgb, to_rgba
from matplotlib.collections import LineCollection, PathCollection
from hypothesis import strategies as st
from vlib import Discard, case, close, equal, raises
from gen import seeds
from getdist import MCSamples, plots
from getdist.gaussian_mixtures import GaussianND
from getdist.matplotlib_ext import BoundedMaxNLocator, SciFuncFormatter

warnings.simplefilter('ignore')
logging.getLogger().setLevel(logging.ERROR)
RULE = ('one to three sample sets with different, reordered parameters, ranges and weights, plotted with generated styles, limits, markers and layouts after other plots; non-trivial: more than one set, '
        'a given style list, a hard limit, a marker, a normalised density or an earlier plot')
ASSUMPTIONS = ['densities and contour levels of given samples are as verified in C13 and C14 (recomputed here from separate copies of the samples)',
               'matplotlib draws the artists it is given']
PARS = ['x', 'y', 'z', 'w']
LABELS = {'x': 'x_0', 'y': r'\beta', 'z': 'z', 'w': r'\Omega_w'}
COLORS = ['red', 'blue', '#00aa55', 'orange', 'm']


@st.composite
def sets(draw, n=None, all_pars=False):
    out = []
    for i in range(n or draw(st.integers(1, 3))):
        names = list(draw(st.permutations(PARS)))
        if not all_pars and i and draw(st.booleans()):
            names = names[:draw(st.integers(2, 3))]
        out.append(dict(seed=draw(seeds), names=names, rows=draw(st.integers(150, 300)), w=draw(st.sampled_from(['unit', 'int', 'float'])),
                        shift=draw(st.sampled_from([0., 0., 1.5, -3.])), scale=draw(st.sampled_from([1., 1., 0.3, 4.])),
                        limits=draw(st.dictionaries(st.sampled_from(PARS), st.sampled_from([[-1., None], [None, 2.], [-2.5, 2.5], [0., 1.]]), max_size=2)),
                        label=draw(st.sampled_from([None, 'lab%d' % i]))))
    return out


def mk(spec):
    r = np.random.RandomState(spec['seed'])
    n, d = spec['rows'], len(spec['names'])
    x = r.normal(size=(n, d)).dot(np.eye(d) + 0.4 * r.normal(size=(d, d))) * spec['scale'] + spec['shift']
    for j, name in enumerate(spec['names']):
        lo, hi = spec['limits'].get(name, (None, None))
        if lo is not None and hi is not None:
            x[:, j] = lo + (hi - lo) * (np.abs(x[:, j] / spec['scale']) % 1)
        elif lo is not None:
            x[:, j] = lo + np.abs(x[:, j])
        elif hi is not None:
            x[:, j] = hi - np.abs(x[:, j])
    w = {'unit': None, 'int': r.randint(0, 5, size=n).astype(float) + (np.arange(n) == 3), 'float': r.uniform(0.1, 2, size=n)}[spec['w']]
    ranges = {k: tuple(v) for k, v in spec['limits'].items() if k in spec['names']}
    return MCSamples(samples=x, weights=w, loglikes=r.gamma(2, size=n), names=spec['names'], labels=[LABELS[p] for p in spec['names']], ranges=ranges, ignore_rows=0,
                     label=spec['label'], name_tag='tag%d' % (spec['seed'] % 97))


class Ref:
    """Densities of separate copies of the sample sets."""

    def __init__(self, specs):
        self.samples = [mk(s) for s in specs]
        self.specs = specs
        self.d1, self.d2 = {}, {}

    def has(self, i, p):
        return p in self.specs[i]['names']

    def one(self, i, p):
        if (i, p) not in self.d1:
            d = self.samples[i].get1DDensityGridData(p, meanlikes=True)
            self.d1[i, p] = (d.x.copy(), d.P.copy(), tuple(d.bounds()), d.likes.copy())
        return self.d1[i, p]

    def two(self, i, p, q, n):
        if (i, p, q, n) not in self.d2:
            self.d2[i, p, q, n] = self.samples[i].get2DDensityGridData(p, q, num_plot_contours=n)
        return self.d2[i, p, q, n]

    def hard(self, i, p):
        return self.specs[i]['limits'].get(p, (None, None)) if self.has(i, p) else (None, None)

    def clip(self, lims, i, p):
        lo, hi = self.hard(i, p)
        return (lims[0] if lo is None else max(lo, lims[0]), lims[1] if hi is None else min(hi, lims[1]))

    def lims1(self, idx, p):
        """Range of a 1D plot of sets idx: encloses each density, inside the hard limits of the first plotted set."""
        b = [self.one(i, p)[2] for i in idx if self.has(i, p)]
        first = [i for i in idx if self.has(i, p)][0]
        return self.clip((min(v[0] for v in b), max(v[1] for v in b)), first, p)

    def bounds2(self, idx, p, q, n=2):
        b = [self.two(i, p, q, n).bounds() for i in idx if self.has(i, p) and self.has(i, q)]
        return [(min(v[k][0] for v in b), max(v[k][1] for v in b)) for k in (0, 1)]

    def lims2(self, idx, p, q, n=2):
        b = self.bounds2(idx, p, q, n)
        return self.clip(b[0], idx[0], p), self.clip(b[1], idx[0], q)


def trapz(x, p):
    return np.sum((p[1:] + p[:-1]) * np.diff(x)) / 2


def unit_area(x, p):
    # the area under a spline through the points
    from scipy.interpolate import InterpolatedUnivariateSpline
    return p / InterpolatedUnivariateSpline(x, p).integral(x[0], x[-1])


def check_curve(line, ref, i, p, normalized, what):
    x, P, _, _ = ref.one(i, p)
    close(line.get_xdata(), x, rtol=1e-9, atol=1e-12, what=what + ' x')
    y = line.get_ydata()
    if normalized:
        close(trapz(x, np.asarray(y)), 1, rtol=3e-3, what=what + ' area')
        close(y / np.max(y), P / np.max(P), rtol=1e-7, atol=1e-10, what=what + ' shape')
    else:
        close(y, P, rtol=1e-7, atol=1e-10, what=what + ' density')


def paths_of(col):
    return [np.asarray(p.vertices) for p in col.get_paths() if len(p.vertices)]


def same_paths(a, b, what):
    a, b = paths_of(a), paths_of(b)
    equal(len(a), len(b), what + ' number of curves')
    for u, v in zip(a, b):
        close(u, v, rtol=1e-8, atol=1e-9, what=what + ' curve')


def check_contours(cols, dens, levels, filled, what):
    """cols: the collections drawn for one set. -> colours of the innermost contour"""
    fig, ax = plt.subplots()
    levels = sorted(levels)
    if filled:
        want = ax.contourf(dens.x, dens.y, dens.P, levels + [dens.P.max() + 1]).collections
    else:
        want = ax.contour(dens.x, dens.y, dens.P, levels).collections
    # same level curves, in order
    assert len(cols) >= len(want), '%s: %d contours drawn, expected %d' % (what, len(cols), len(want))
    for c, w in zip(cols, want):
        same_paths(c, w, what)
    # and the level curves enclose what they should: points on them have the contour density
    if not filled:
        from scipy.interpolate import RegularGridInterpolator
        f = RegularGridInterpolator((dens.y, dens.x), dens.P, method='linear', bounds_error=False, fill_value=None)
        for c, lev in zip(cols, levels):
            for v in paths_of(c):
                close(f(v[:, ::-1]), np.full(len(v), lev), rtol=1e-6, atol=1e-6 * dens.P.max(), what=what + ' density on the contour')
    plt.close(fig)


def split_contours(ax, filled_list, n):
    """Collections of each set, in the order drawn (filled: n areas and an outline)."""
    cols = [c for c in ax.collections if isinstance(c, (LineCollection, PathCollection))]
    out, at = [], 0
    for filled in filled_list:
        k = n + 1 if filled else n
        out.append(cols[at:at + k])
        at += k
    equal(len(cols), at, 'number of contours on the axes')
    return out


@st.composite
def styles(draw, n):
    """-> kwargs, and what each of n lines should look like (None: default)"""
    kw, exp = {}, [dict() for _ in range(n)]
    la = draw(st.sampled_from([None, None, None, 'dict', 'list', 'short']))
    if la == 'dict':
        kw['line_args'] = {'lw': 2.5}
        for e in exp:
            e['lw'] = 2.5
    elif la == 'list':
        kw['line_args'] = [{'color': draw(st.sampled_from(COLORS)), 'ls': '-.'} for _ in range(n)]
        for e, a in zip(exp, kw['line_args']):
            e.update(a)
    elif la == 'short':
        kw['line_args'] = [{'color': 'cyan'}]
        exp[0]['color'] = 'cyan'
    for key, name, vals in [('colors', 'color', COLORS), ('ls', 'ls', ['-', '--', ':']), ('lws', 'lw', [0.7, 3.]), ('alphas', 'alpha', [0.4, 0.9, 0])]:
        if draw(st.integers(0, 2)):
            continue
        scalar = key != 'colors' and draw(st.booleans())
        if scalar:
            v = draw(st.sampled_from(vals))
            kw[key] = v
            for e in exp:
                e[name] = v
        else:
            v = [draw(st.sampled_from(vals + [None])) for _ in range(draw(st.integers(1, n)))]
            kw[key] = v
            for e, x in zip(exp, v):
                if x is not None:  # (None: not specified)
                    e[name] = x
    return dict(kw=kw, exp=exp)


DEFAULT_STYLES = [('-', 'k'), ('-', 'r'), ('-', 'b'), ('-', 'g'), ('-', 'm')]


def check_style(line, exp, i, what):
    color = exp.get('color', DEFAULT_STYLES[i][1])
    equal(to_rgb(line.get_color()), to_rgb(color), what + ' colour')
    if 'lw' in exp:
        close(line.get_linewidth(), exp['lw'], what=what + ' line width')
    if 'alpha' in exp:
        close(line.get_alpha(), exp['alpha'], what=what + ' alpha')
    ls = exp.get('ls', '-')
    equal(line.get_linestyle(), ls, what + ' line style') if ls in '-:' else equal(line.get_linestyle() in ('-', ':'), False, what + ' dashed')


def copied(x):
    return {k: copied(v) for k, v in x.items()} if isinstance(x, dict) else [copied(v) for v in x] if isinstance(x, list) else x


def plotter(spec):
    g = plots.get_subplot_plotter() if spec.get('sub') else plots.get_single_plotter()
    g.settings.tight_layout = bool(spec.get('tight'))
    return g


@st.composite
def one_d(draw):
    s = draw(sets())
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        idx = sorted(draw(st.sets(st.integers(0, len(s) - 1), min_size=1)))
        if draw(st.booleans()):
            idx.reverse()
        common = [p for p in PARS if all(p in s[i]['names'] for i in idx)]
        p = draw(st.sampled_from(common or ['']))
        ops.append(dict(idx=idx, p=p, normalized=draw(st.sampled_from([None, None, False, True, 'setting'])), style=draw(styles(len(idx))), marker=draw(st.sampled_from([None, None, 0.25])),
                        lims=draw(st.sampled_from([None, None, [-2., 5.]])), title=draw(st.sampled_from([None, None, 1])), means=draw(st.sampled_from([False, False, True])),
                        args=draw(st.sampled_from([None, None, {'alpha': 0.3}, 'list'])), stats=draw(st.booleans()), offset=draw(st.sampled_from([0, 1, 9]))))
    return dict(sets=s, ops=ops, sub=draw(st.booleans()), tight=draw(st.booleans()))


@case(one_d(), quick=160, thorough=1200, shards=8)
def curves(c, t):
    """plot_1d, after any earlier plots with the same plotter: each line is that set's density, in its own style, inside stated limits."""
    ref = Ref(c['sets'])
    samples = [mk(s) for s in c['sets']]
    g = plotter(c)
    base = {k: v for k, v in g.settings.__dict__.items()}
    try:
        for no, op in enumerate(c['ops']):
            if not op['p']:
                raise Discard
            t.nontrivial(len(op['idx']) > 1 or no > 0 or bool(op['style']['kw']) or op['normalized'] or op['marker'] is not None)
            roots = [samples[i] for i in op['idx']]
            kw = copied(op['style']['kw'])
            if op['marker'] is not None:
                kw['marker'] = op['marker']
            if op['lims']:
                kw['lims'] = list(op['lims'])
            if op['title']:
                kw['title_limit'] = op['title']
            normalized = bool(op['normalized'])
            if op['normalized'] in (True, False):
                kw['normalized'] = op['normalized']
            g.settings.norm_1d_density = False
            if op['normalized'] == 'setting':
                g.settings.norm_1d_density = True
            g.settings.plot_meanlikes = op['means']
            exp = [dict(e) for e in op['style']['exp']]
            pa = op['args']
            if pa == 'list':
                pa = [{'alpha': 0.35}] + [{'alpha': 0.65}] * (len(roots) - 1)
            g.settings.plot_args = copied(pa)
            for i, e in enumerate(exp):
                for k, v in (pa[i] if isinstance(pa, list) else pa or {}).items():
                    e.setdefault(k, v)
            given = copied({k: v for k, v in kw.items()})
            g.new_plot()
            g.plot_1d(roots if len(roots) > 1 or no else roots[0], op['p'], **kw)
            equal(kw, given, 'arguments after the call')
            equal(g.settings.plot_args, copied(pa), 'settings.plot_args after the call')
            ax = g.subplots[0, 0]
            lines = list(ax.lines)
            per = 2 if op['means'] else 1
            equal(len(lines), len(roots) * per + (op['marker'] is not None), 'number of lines')
            for k, i in enumerate(op['idx']):
                what = 'plot %d set %d' % (no, i)
                check_curve(lines[k * per], ref, i, op['p'], normalized, what)
                check_style(lines[k * per], exp[k], k, what)
                if op['means']:
                    close(lines[k * per + 1].get_ydata(), ref.one(i, op['p'])[3], rtol=1e-7, atol=1e-9, what=what + ' mean likelihood')
            if op['marker'] is not None:
                close(lines[-1].get_xdata(), [op['marker']] * 2, what='marker')
            close(ax.get_xlim(), op['lims'] or ref.lims1(op['idx'], op['p']), rtol=1e-9, atol=1e-12, what='plot %d x range' % no)
            top = max(np.max(line.get_ydata()) for line in lines[:len(roots) * per:per])
            assert ax.get_ylim()[0] == 0 and ax.get_ylim()[1] >= top, 'y range %s does not show the densities up to %g' % (ax.get_ylim(), top)
            assert ax.get_ylim()[1] <= 1.5 * max(top, 1 if op['means'] else 0), 'y range %s for densities up to %g' % (ax.get_ylim(), top)
            equal(ax.get_xlabel(), '$%s$' % LABELS[op['p']], 'x label')
            if op['title']:
                tex = ref.samples[op['idx'][0]].getInlineLatex(op['p'], limit=1)
                equal(ax.get_title(), '' if '---' in tex else '$%s$' % tex, 'title')
            if len(roots) > op['offset']:
                # legend without the first lines
                labels = ['set%d' % i for i in op['idx']][op['offset']:]
                leg = g.add_legend(labels, line_offset=op['offset'])
                check_legend(leg, labels, [e.get('color', DEFAULT_STYLES[k][1]) for k, e in enumerate(exp)][op['offset']:])
            if op['stats']:
                for i in op['idx']:
                    a, b = samples[i].getMargeStats().parWithName(op['p']), mk(c['sets'][i]).getMargeStats().parWithName(op['p'])
                    for u, v in zip(a.limits, b.limits):
                        equal((u.lower, u.upper, u.limitType()), (v.lower, v.upper, v.limitType()), 'limits of a set that has been plotted')
    finally:
        plt.close('all')


@st.composite
def two_d(draw):
    s = draw(sets())
    ops = []
    for _ in range(draw(st.integers(1, 2))):
        idx = list(draw(st.permutations(range(len(s)))))[:draw(st.integers(1, len(s)))]
        pair = list(draw(st.permutations(c['names'])))[:2] if (c := s[idx[0]]) else None
        filled = draw(st.sampled_from([False, True, 'list']))
        if filled == 'list':
            filled = [draw(st.booleans()) for _ in idx]
        st_ = draw(styles(len(idx)))
        for k in ('lws',):
            st_['kw'].pop(k, None)
        ops.append(dict(idx=idx, pair=pair, filled=filled, style=st_, lims=draw(st.sampled_from([None, None, [-2., 5., -3., 3.]])), n=draw(st.sampled_from([1, 2, 2, 3])),
                        how=draw(st.sampled_from(['two', 'pair', 'list'])), legend=draw(st.sampled_from([None, None, 'plain', 'colored', 'reverse', 'order'])), shaded=draw(st.sampled_from([False, False, True]))))
    return dict(sets=s, ops=ops, sub=draw(st.booleans()), tight=draw(st.booleans()))


def handle_color(h):
    return to_rgb(h.get_facecolor()) if hasattr(h, 'get_facecolor') else to_rgb(h.get_color())


def check_legend(leg, labels, colors, what='legend', colored=False):
    equal([x.get_text() for x in leg.get_texts()], labels, what + ' labels')
    hs = leg.legend_handles
    for h, x, lab, col in zip(hs, leg.get_texts(), labels, colors):
        if col is not None:
            close(handle_color(h), to_rgb(col), atol=1e-6, what='%s colour for %s' % (what, lab))
            if colored:
                close(to_rgb(x.get_color()), to_rgb(col), atol=1e-6, what='%s text colour for %s' % (what, lab))


SOLID = ['#006FED', '#E03424', 'gray', '#009966']


@case(two_d(), quick=120, thorough=800, shards=8)
def contours(c, t):
    """plot_2d: the contours of each set are its density at its levels, in its own colour."""
    ref = Ref(c['sets'])
    samples = [mk(s) for s in c['sets']]
    g = plotter(c)
    try:
        for no, op in enumerate(c['ops']):
            idx, (p, q), n = op['idx'], op['pair'], op['n']
            t.nontrivial(len(idx) > 1 or no > 0 or bool(op['style']['kw']))
            roots = [samples[i] for i in idx]
            kw = copied(op['style']['kw'])
            if op['lims']:
                kw['lims'] = list(op['lims'])
            if op['filled'] is not False:
                kw['filled'] = op['filled']
            shaded = op['shaded'] and not op['filled']
            if shaded:
                kw['shaded'] = True
            g.settings.num_plot_contours = n
            g.new_plot()
            given = copied(kw)
            if op['how'] == 'two':
                res = g.plot_2d(roots, p, q, **kw)
            elif op['how'] == 'pair':
                res = g.plot_2d(roots, param_pair=[p, q], **kw)
            else:
                res = g.plot_2d(roots, [p, q], **kw)
            equal(kw, given, 'arguments after the call')
            ax = g.subplots[0, 0]
            filled = op['filled'] if isinstance(op['filled'], list) else [op['filled']] * len(idx)
            shown = [k for k, i in enumerate(idx) if ref.has(i, p) and ref.has(i, q)]
            if shaded:
                # the shading comes first, for the first set, and is followed by its contours
                cols = [x for x in ax.collections if isinstance(x, (LineCollection, PathCollection))]
                keep = len(shown) * n
                assert len(cols) > keep, 'no shading'
                split = [cols[len(cols) - keep + k * n:len(cols) - keep + (k + 1) * n] for k in range(len(shown))]
            else:
                split = split_contours(ax, [filled[k] for k in shown], n)
            colors = [None] * len(idx)
            for cols, k in zip(split, shown):
                d = ref.two(idx[k], p, q, n)
                check_contours(cols, d, d.contours, filled[k], 'plot %d set %d' % (no, idx[k]))
                exp = op['style']['exp'][k]
                if filled[k]:
                    col = exp.get('color', SOLID[len(idx) - k - 1])
                    got = cols[n - 1].get_facecolor()[0][:3]
                else:
                    col = exp.get('color', DEFAULT_STYLES[k][1])
                    got = cols[n - 1].get_edgecolor()[0][:3]
                close(got, to_rgb(col), atol=1e-6, what='plot %d colour of set %d' % (no, idx[k]))
                colors[k] = col
                if 'alpha' in exp:
                    close(cols[0].get_alpha(), exp['alpha'], what='alpha of set %d' % idx[k])
            for b, e in zip(res, ref.bounds2(idx, p, q, n)):
                close(b, e, rtol=1e-9, atol=1e-12, what='returned bounds')
            lims = op['lims'] or [*ref.lims2(idx, p, q, n)[0], *ref.lims2(idx, p, q, n)[1]]
            close(list(ax.get_xlim()) + list(ax.get_ylim()), lims, rtol=1e-9, atol=1e-12, what='plot %d axes range' % no)
            equal((ax.get_xlabel(), ax.get_ylabel()), ('$%s$' % LABELS[p], '$%s$' % LABELS[q]), 'axis labels')
            if op['legend'] and len(shown) == len(idx):
                labels = ['set%d' % i for i in idx]
                order = {'reverse': -1, 'order': list(range(1, len(idx))) + [0]}.get(op['legend'])
                seq = list(range(len(idx)))
                seq = seq[::-1] if order == -1 else order or seq
                leg = g.add_legend(labels, label_order=order, colored_text=op['legend'] == 'colored')
                check_legend(leg, [labels[k] for k in seq], [colors[k] for k in seq], colored=op['legend'] == 'colored')
    finally:
        plt.close('all')


@st.composite
def triangles(draw):
    s = draw(sets(n=draw(st.integers(1, 3))))
    pars = list(draw(st.permutations(s[0]['names'])))[:draw(st.integers(1, 3))]
    up = draw(st.sampled_from([0, 0, 0, 1])) if len(s) > 1 else 0
    return dict(sets=s, pars=pars, filled=draw(st.booleans()), upper=up, markers=draw(st.sampled_from([None, None, 'dict', 'list'])),
                limits=draw(st.sampled_from([None, None, [-2., 2.]])), colors=draw(st.sampled_from([None, None, list(COLORS)])), labels=draw(st.sampled_from([None, 'given', 'reverse'])),
                third=draw(st.sampled_from([False, False, True])), show=draw(st.booleans()), label_right=draw(st.booleans()), norm=draw(st.sampled_from([False, False, True])), ls=draw(st.sampled_from([None, None, ['--', '-', ':']])),
                glob=draw(st.sampled_from([False, False, True])))


def contour_colors(ax, n, filled, k0=0):
    return ax


@case(triangles(), quick=72, thorough=480, shards=8)
def triangle(c, t):
    """triangle_plot: every subplot shows its row and column parameters of the right sets; shared limits; legend in the colours drawn."""
    ref = Ref(c['sets'])
    samples = [mk(s) for s in c['sets']]
    nset = len(samples)
    lower = list(range(nset - 1)) if c['upper'] else list(range(nset))
    upper = [nset - 1] if c['upper'] else []
    pars, n = c['pars'], 2
    third = c['third'] and not upper and len(pars) > 1
    filled = c['filled']
    kw = dict(filled=filled)
    col_par = None
    if third:
        col_par = ref.specs[0]['names'][0]
        kw['plot_3d_with_param'] = col_par
    if c['colors']:
        kw['contour_colors'] = list(c['colors'])
    if c['ls'] and not filled:
        kw['contour_ls'] = list(c['ls'])
    marks = {}
    if c['markers'] == 'dict':
        kw['markers'] = {pars[-1]: 0.2, 'other': 3}
        marks = {pars[-1]: 0.2}
    elif c['markers'] == 'list':
        kw['markers'] = [0.1 * k for k in range(len(pars))]
        marks = dict(zip(pars, kw['markers']))
    if c['limits']:
        kw['param_limits'] = {pars[0]: tuple(c['limits'])}
    if upper:
        kw['upper_roots'] = [samples[i] for i in upper]
        kw['upper_kwargs'] = {'show_1d': c['show']}
        kw['upper_label_right'] = c['label_right']
    if c['norm']:
        kw['diag1d_kwargs'] = {'normalized': True}
    t.nontrivial(nset > 1 or len(pars) > 2 or bool(marks))
    diag = lower + (upper if c['show'] else [])
    named = lower + upper if len(pars) > 1 else diag
    labels = ['L%d' % i for i in named]
    if c['labels']:
        kw['legend_labels'] = labels
        if c['labels'] == 'reverse':
            kw['label_order'] = -1
    given = {k: copied(v) if isinstance(v, (dict, list)) and k != 'upper_roots' else v for k, v in kw.items()}
    g = plots.get_subplot_plotter()
    try:
        request = pars
        if c['glob'] and set(pars) == set(ref.specs[0]['names']):
            request = None
            pars = ref.specs[0]['names']
        roots = [samples[i] for i in lower]
        g.triangle_plot(roots if len(roots) > 1 else roots[0], request, **kw)
        equal({k: v for k, v in kw.items() if k != 'upper_roots'}, {k: v for k, v in given.items() if k != 'upper_roots'}, 'arguments after the call')
        equal(g.subplots.shape, (len(pars), len(pars)), 'subplot grid')
        lims = {p: tuple(c['limits']) if c['limits'] and p == c['pars'][0] else ref.lims1(diag, p) for p in pars}

        def line_col(k, total):
            if c['colors']:
                return c['colors'][k]
            return SOLID[total - k - 1] if filled else DEFAULT_STYLES[k][1]

        for i, p in enumerate(pars):
            ax = g.subplots[i, i]
            lines = list(ax.lines)
            here = [k for k, j in enumerate(diag) if ref.has(j, p)]
            equal(len(lines), len(here) + (p in marks), 'lines for %s' % p)
            for line, k in zip(lines, here):
                j = diag[k]
                check_curve(line, ref, j, p, c['norm'], 'diagonal %s set %d' % (p, j))
                if j in lower:
                    close(to_rgb(line.get_color()), to_rgb(line_col(k, len(lower))), atol=1e-6, what='diagonal colour of set %d' % j)
                if c['ls'] and not filled and j in lower:
                    if c['ls'][k] == '-':
                        equal(line.get_linestyle(), '-', 'line style')
            if p in marks:
                close(lines[-1].get_xdata(), [marks[p]] * 2, what='marker')
            close(ax.get_xlim(), lims[p], rtol=1e-9, atol=1e-12, what='range of %s' % p)
            if i == len(pars) - 1:
                equal(ax.get_xlabel(), '$%s$' % LABELS[p], 'label of the last 1D plot')
            for i2 in range(i + 1, len(pars)):
                q = pars[i2]
                ax = g.subplots[i2, i]
                what = 'subplot %s-%s' % (p, q)
                close(ax.get_xlim(), lims[p], rtol=1e-9, atol=1e-12, what=what + ' x range')
                close(ax.get_ylim(), lims[q], rtol=1e-9, atol=1e-12, what=what + ' y range')
                if i2 == len(pars) - 1:
                    equal(ax.get_xlabel(), '$%s$' % LABELS[p], what + ' x label')
                if i == 0:
                    equal(ax.get_ylabel(), '$%s$' % LABELS[q], what + ' y label')
                got = g.get_axes_for_params(p, q)
                assert got is ax, 'get_axes_for_params(%s, %s) is another subplot' % (p, q)
                cols = [x for x in ax.collections if isinstance(x, (LineCollection, PathCollection))]
                shown = [k for k, j in enumerate(lower) if ref.has(j, p) and ref.has(j, q)]
                if third:
                    pts = cols[0].get_offsets()
                    check_points(pts, cols[0].get_array(), ref.samples[lower[0]], p, q, col_par, what)
                    cols = cols[1:]
                    shown = [k for k in shown if k > 0]
                at = 0
                for k in shown:
                    mine = cols[at:at + (n + 1 if filled else n)]
                    at += n + 1 if filled else n
                    d = ref.two(lower[k], p, q, n)
                    check_contours(mine, d, d.contours, filled, what + ' set %d' % lower[k])
                    got = (mine[n - 1].get_facecolor() if filled else mine[n - 1].get_edgecolor())[0][:3]
                    if not (third and filled):
                        close(got, to_rgb(line_col(k, len(lower))), atol=1e-6, what=what + ' colour of set %d' % lower[k])
                equal(len(cols), at, what + ' number of contours')
                ms = list(ax.lines)
                equal(len(ms), (p in marks) + (q in marks), what + ' markers')
                if p in marks:
                    close(ms[0].get_xdata(), [marks[p]] * 2, what=what + ' x marker')
                if q in marks:
                    close(ms[-1].get_ydata(), [marks[q]] * 2, what=what + ' y marker')
                if upper:
                    ax = g.subplots[i, i2]
                    what = 'upper subplot %s-%s' % (q, p)
                    close(ax.get_xlim(), lims[q], rtol=1e-9, atol=1e-12, what=what + ' x range')
                    close(ax.get_ylim(), lims[p], rtol=1e-9, atol=1e-12, what=what + ' y range')
                    equal(ax.get_xlabel(), '', what + ' x label')
                    equal(bool(ax.get_ylabel()), c['label_right'] and i2 == len(pars) - 1, what + ' has a y label')
                    if ref.has(upper[0], p) and ref.has(upper[0], q):
                        (mine,) = split_contours(ax, [filled], n)
                        d = ref.two(upper[0], q, p, n)
                        check_contours(mine, d, d.contours, filled, what)
        if not upper:
            for i in range(len(pars)):
                for i2 in range(i + 1, len(pars)):
                    assert g.subplots[i, i2] is None, 'subplot above the diagonal'
        if c['labels']:
            t.label('legend')
            seq = list(range(len(named)))
            if c['labels'] == 'reverse':
                seq.reverse()
            # sets without the first parameters have no line to take a colour from
            first = pars[:1] if len(pars) == 1 or third else pars[:2]
            ok = all(ref.has(j, p) for j in named for p in first)
            if ok:
                check_legend(g.legend, [labels[k] for k in seq], [None if third and filled or k >= len(lower) else line_col(k, len(lower)) for k in seq])
    finally:
        plt.close('all')


def check_points(pts, values, ref, p, q, z, what):
    """Scatter points are rows of the samples (with weight), coloured by the value in the same row."""
    w = ref.weights
    rows = np.array([ref[p], ref[q]] + ([ref[z]] if z else [])).T
    keep = rows[w > 0]
    order = {tuple(np.round(r, 10)): 1 for r in keep}
    got = np.column_stack([np.asarray(pts)] + ([np.asarray(values)] if z else []))
    assert len(got) > 0, what + ': no points'
    for r in got:
        assert tuple(np.round(r, 10)) in order, '%s: point %s is not a sample with weight' % (what, r)


@st.composite
def scatters(draw):
    s = draw(sets())
    c = dict(sets=s, pars=list(draw(st.permutations(s[0]['names'])))[:3], how=draw(st.sampled_from(['3d', '3d', '2d', 'alpha', 'alpha2', 'for_plots', 'z', 'many', '4d'])), lims=draw(st.sampled_from([None, None, [-2., 2., -1., 1.]])),
             thin=draw(st.sampled_from([1, 1, 3])), bar=draw(st.booleans()), other=draw(st.booleans()), colors=draw(st.sampled_from([None, ['orange', 'm', 'c']])), tight=draw(st.booleans()))
    return c


@case(scatters(), quick=120, thorough=960, shards=8)
def scatter(c, t):
    """plot_3d and relatives: points are weighted samples with their own colour values; further sets are contours."""
    ref = Ref(c['sets'])
    samples = [mk(s) for s in c['sets']]
    p, q, z = c['pars']
    g = plotter(dict(tight=c['tight'], sub=c['how'] in ('z', 'many')))
    kw = {}
    if c['colors']:
        kw['colors'] = list(c['colors'])
    if c['lims']:
        kw['lims'] = list(c['lims'])
    how = c['how']
    cmap, size = [(g.settings.colormap_scatter, g.settings.scatter_size), ('plasma', 7), ('coolwarm', 2)][(len(c['pars'][0]) + len(samples) + c['thin'] + bool(c['lims'])) % 3]
    g.settings.colormap_scatter, g.settings.scatter_size = cmap, size
    t.nontrivial(len(samples) > 1 or how != '3d' or bool(kw))
    t.label(how)
    idx = list(range(len(samples)))
    try:
        if how == '4d':
            names = c['sets'][0]['names']
            mid = float(np.median(ref.samples[0][names[0]]))
            lo, hi = mid - c['sets'][0]['scale'], None if c['other'] else mid + c['sets'][0]['scale']
            lims = {names[0]: (lo, hi)} if c['lims'] else {}
            idx = [i for i in idx if all(ref.has(i, x) for x in names)]
            g.plot_4d([samples[i] for i in idx], names, color_bar=c['bar'], lims=lims)
            (ax,) = [a for a in g.fig.axes if hasattr(a, 'get_zlim')]
            from mpl_toolkits.mplot3d.art3d import Path3DCollection
            cols = [x for x in ax.collections if isinstance(x, Path3DCollection)]
            equal(len(cols), len(idx), 'scatters')
            for col, i in zip(cols, idx):
                x, y, zz = [np.asarray(v) for v in col._offsets3d]
                r = ref.samples[i]
                rows = {tuple(np.round(v, 9)) for v in np.array([r[k] for k in names]).T[r.weights > 0]}
                for v in np.column_stack([x, y, zz, np.asarray(col.get_array())]):
                    assert tuple(np.round(v, 9)) in rows, '4d point %s is not a sample with weight' % v
                if lims:
                    assert np.all((x > lo) & (x < (np.inf if hi is None else hi))), 'point outside the stated limits'
            equal((ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()), tuple('$%s$' % LABELS[k] for k in names[:3]), 'labels')
            if lims:
                close(ax.get_xlim()[:1 if hi is None else 2], (lo, hi)[:1 if hi is None else 2], what='x range')
            return
        roots = [samples[i] for i in idx]
        if how in ('2d', 'alpha2'):
            g.plot_2d_scatter(roots, p, q, color='green', **(dict(alpha_samples=True) if how == 'alpha2' else {}), **kw)
        elif how == 'for_plots':
            pf = []
            for i in idx:
                own = c['sets'][i]['names']
                pf.append([p, q, z] if i == 0 else [own[0], own[1], own[0]])
            g.plot_3d(roots, params_for_plots=pf, color_bar=c['bar'], **kw)
        elif how == 'z':
            g.plots_3d_z(roots, p, q, **kw)
        elif how == 'many':
            g.plots_3d(roots, [[p, q, z], [z, p, q]], color_bar=c['bar'], **kw)
        else:
            g.plot_3d(roots, [p, q, z], color_bar=c['bar'], alpha_samples=how == 'alpha', **(dict(extra_thin=c['thin']) if how == '3d' else {}), **kw)
        if how == 'z':
            trip = [(p, q, k) for k in c['sets'][0]['names'] if k not in (p, q)]
        elif how == 'many':
            trip = [(p, q, z), (z, p, q)]
        else:
            trip = [(p, q, z)]
        for no, (a, b, k) in enumerate(trip):
            ax = g.subplots.reshape(-1)[no]
            cols = [x for x in ax.collections if isinstance(x, (LineCollection, PathCollection))]
            sc = cols[0]
            equal(list(sc.get_sizes()), [size], 'size of points')
            if how not in ('2d', 'alpha2'):
                equal((g.last_scatter if how == 'alpha' else sc).get_cmap().name, cmap, 'colour map')
            if how in ('2d', 'alpha2'):
                check_points(sc.get_offsets(), None, ref.samples[0], a, b, None, 'scatter')
                close(sc.get_facecolor()[:, :3], np.tile(to_rgb('green'), (len(sc.get_facecolor()), 1)), atol=1e-6, what='colour')
            elif how == 'alpha':
                check_points(sc.get_offsets(), None, ref.samples[0], a, b, None, 'scatter')
                w = ref.samples[0].weights
                # colour follows the third parameter
                rows = {tuple(np.round(r[:2], 10)): r[2] for r in np.array([ref.samples[0][a], ref.samples[0][b], ref.samples[0][k]]).T}
                zs = np.array([rows[tuple(np.round(r, 10))] for r in np.asarray(sc.get_offsets())])
                close(np.asarray(g.last_scatter.get_array()), zs, what='colour values')
                rgb = g.last_scatter.to_rgba(zs)[:, :3]
                close(sc.get_facecolors()[:, :3], rgb, atol=1e-6, what='colours')
                # total opacity is proportional to weight
                ws = {tuple(np.round(r, 10)): v for r, v in zip(np.array([ref.samples[0][a], ref.samples[0][b]]).T, w)}
                tot = {}
                for r, al in zip(np.asarray(sc.get_offsets()), sc.get_facecolors()[:, 3]):
                    key = tuple(np.round(r, 10))
                    tot[key] = tot.get(key, 0) + al
                for key, v in tot.items():
                    close(v, ws[key] / np.max(w), rtol=1e-6, what='opacity of a sample (per weight)')
                big = [key for key, v in ws.items() if v > np.max(w) / 100]
                assert all(key in tot for key in big), 'a sample with weight is not drawn'
            else:
                check_points(sc.get_offsets(), sc.get_array(), ref.samples[0], a, b, k, 'scatter')
            rest = cols[1:]
            at = 0
            for m, i in enumerate(idx[1:]):
                pair = (a, b) if how != 'for_plots' else (c['sets'][i]['names'][0], c['sets'][i]['names'][1])
                if not (ref.has(i, pair[0]) and ref.has(i, pair[1])):
                    continue
                mine = rest[at:at + 2]
                at += 2
                d = ref.two(i, pair[0], pair[1], 2)
                check_contours(mine, d, d.contours, False, 'contours of set %d' % i)
                close(mine[0].get_edgecolor()[0][:3], to_rgb(c['colors'][m] if c['colors'] else DEFAULT_STYLES[m][1]), atol=1e-6, what='contour colour of set %d' % i)
            equal(len(rest), at, 'number of contours')
            if True:
                equal((ax.get_xlabel(), ax.get_ylabel()), ('$%s$' % LABELS[a], '$%s$' % LABELS[b]), 'axis labels')
            if c['lims']:
                close(list(ax.get_xlim()) + list(ax.get_ylim()), c['lims'], what='axes range')
            else:
                off = np.asarray(sc.get_offsets())
                for lim, hard, v in zip((ax.get_xlim(), ax.get_ylim()), (ref.hard(0, a), ref.hard(0, b)), off.T):
                    assert lim[0] <= v.min() + 1e-9 and lim[1] >= v.max() - 1e-9, 'points outside the axes'
                    assert hard[0] is None or lim[0] >= hard[0], 'axes beyond the lower prior limit'
                    assert hard[1] is None or lim[1] <= hard[1], 'axes beyond the upper prior limit'
            if how in ('3d', 'for_plots', 'alpha') and c['bar']:
                cb = g.last_colorbar
                equal(cb.ax.get_ylabel(), '$%s$' % LABELS[k], 'colour bar label')
    finally:
        plt.close('all')


@st.composite
def arrays(draw):
    s = draw(sets())
    names = s[0]['names']
    how = draw(st.sampled_from(['1d', '1d', '2d', 'pairs', 'rect', 'rect_y', 'rect_plot', 'triplets', 'per_param']))
    return dict(sets=s, how=how, pars=list(draw(st.permutations(names)))[:draw(st.integers(1, 4))], nx=draw(st.sampled_from([None, None, 1, 2])), labels=draw(st.sampled_from([None, 'given', 'reverse', 'order', 'default'])),
                filled=draw(st.booleans()), share=draw(st.sampled_from([None, True, False])), markers=draw(st.sampled_from([None, 'dict', 'list'])), xlims=draw(st.sampled_from([None, [-2., 3.]])),
                norm=draw(st.sampled_from([False, False, True])), colors=draw(st.sampled_from([None, list(COLORS)])), style=draw(st.sampled_from([None, None, 'tab10'])))


@case(arrays(), quick=120, thorough=960, shards=8)
def layouts(c, t):
    """plots_1d, plots_2d, rectangle and triplet layouts: the k-th subplot has the k-th parameters; legend labels name the right lines."""
    ref = Ref(c['sets'])
    samples = [mk(s) for s in c['sets']]
    how, pars = c['how'], c['pars']
    idx = list(range(len(samples)))
    t.nontrivial(len(samples) > 1 or len(pars) > 1)
    t.label(how)
    labels = ['L%d' % i for i in idx]
    kw = {}
    order = None
    if c['labels'] in ('given', 'reverse', 'order'):
        kw['legend_labels'] = labels
        order = {'reverse': -1, 'order': idx[1:] + idx[:1]}.get(c['labels'])
        if order is not None:
            kw['label_order'] = order
    if c['colors']:
        kw['colors'] = list(c['colors'])
    default = c['labels'] in (None, 'default') and len(idx) > 1
    if default:
        labels = [s.label if s.label else s.name_tag.replace('_', r'{\textunderscore}') for s in samples]
    try:
        g = plots.get_subplot_plotter()
        seq = idx[::-1] if order == -1 else order or idx
        if how in ('1d', 'per_param'):
            if c['nx']:
                kw['nx'] = c['nx']
            if c['share'] is not None:
                kw['share_y'] = c['share']
            marks = {}
            if c['markers'] == 'dict':
                kw['markers'] = {pars[0]: 0.3}
                marks = {pars[0]: 0.3}
            elif c['markers'] == 'list':
                kw['markers'] = [0.5]
                marks = {pars[0]: 0.5}
            if c['xlims']:
                kw['xlims'] = [list(c['xlims']) for _ in pars]
            if c['norm']:
                kw['normalized'] = True
            if how == 'per_param':
                rows = [[i for i in idx if ref.has(i, p)][:1 + k] for k, p in enumerate(pars)]
                for k in ('legend_labels', 'label_order'):
                    kw.pop(k, None)
                col, row = g.plots_1d([[samples[i] for i in r] for r in rows], pars, roots_per_param=True, legend_labels=[], **kw)
            else:
                rows = [[i for i in idx if ref.has(i, p)] for p in pars]
                col, row = g.plots_1d([samples[i] for i in idx], pars, **kw)
            axes = [g.subplots[k // col, k % col] for k in range(len(pars))]
            if c['nx']:
                equal(col, c['nx'], 'columns')
            assert col * row >= len(pars), 'subplots do not fit'
            for p, ax, r in zip(pars, axes, rows):
                lines = list(ax.lines)
                equal(len(lines), len(r) + (p in marks), 'lines for %s' % p)
                for line, i in zip(lines, r):
                    check_curve(line, ref, i, p, c['norm'], '%s of set %d' % (p, i))
                    k = r.index(i) if how == 'per_param' else i
                    close(to_rgb(line.get_color()), to_rgb(c['colors'][k] if c['colors'] else DEFAULT_STYLES[k][1]), atol=1e-6, what='colour of set %d' % i)
                if p in marks:
                    close(lines[-1].get_xdata(), [marks[p]] * 2, what='marker')
                equal(ax.get_xlabel(), '$%s$' % LABELS[p], 'label')
                close(ax.get_xlim(), c['xlims'] or ref.lims1(r, p), rtol=1e-9, atol=1e-12, what='range of %s' % p)
            if how == '1d' and (default or 'legend_labels' in kw):
                colors = [(c['colors'][k] if c['colors'] else DEFAULT_STYLES[k][1]) if any(k in r for r in rows) else None for k in idx]
                check_legend(g.legend, [labels[k] for k in seq], [colors[k] for k in seq])
            return
        n = 2
        filled = c['filled']
        if how == 'triplets':
            trip = []
            for k, i in enumerate(idx):
                own = c['sets'][i]['names']
                trip.append((i, own[0], own[1]))
            g.plots_2d_triplets([(samples[i], a, b) for i, a, b in trip], filled=filled, nx=c['nx'], **(dict(x_lim=list(c['xlims'])) if c['xlims'] else {}))
            for k, (i, a, b) in enumerate(trip):
                ax = g.subplots[k // g.plot_col, k % g.plot_col]
                (mine,) = split_contours(ax, [filled], n)
                d = ref.two(i, a, b, n)
                check_contours(mine, d, d.contours, filled, 'subplot %d' % k)
                equal((ax.get_xlabel(), ax.get_ylabel()), ('$%s$' % LABELS[a], '$%s$' % LABELS[b]), 'labels')
                if c['xlims']:
                    close(ax.get_xlim(), c['xlims'], what='x range')
                else:
                    close(ax.get_xlim(), ref.lims2([i], a, b)[0], rtol=1e-9, atol=1e-12, what='x range')
            return
        kw['filled'] = filled
        if how in ('2d', 'pairs'):
            if c['nx']:
                kw['nx'] = c['nx']
            first, others = c['sets'][0]['names'][0], pars
            if how == '2d':
                pairs = [(first, p) for p in others if p != first]
                if not pairs:
                    raise Discard
                col, row = g.plots_2d([samples[i] for i in idx], first, others, **kw)
            else:
                pairs = [(first if p != first else c['sets'][0]['names'][1], p) for p in others]
                col, row = g.plots_2d([samples[i] for i in idx], param_pairs=[list(x) for x in pairs], **kw)
            cells = [(g.subplots[k // col, k % col], a, b, idx) for k, (a, b) in enumerate(pairs)]
            for ax, a, b, r in cells:
                shown = [i for i in r if ref.has(i, a) and ref.has(i, b)]
                lx, ly = ref.lims2(r, a, b)
                close(list(ax.get_xlim()) + list(ax.get_ylim()), [*lx, *ly], rtol=1e-9, atol=1e-12, what='ranges of %s-%s' % (a, b))
                equal((ax.get_xlabel(), ax.get_ylabel()), ('$%s$' % LABELS[a], '$%s$' % LABELS[b]), 'labels')
        else:
            xs = c['sets'][0]['names'][:2]
            ys = c['sets'][0]['names'][2:]
            full = [i for i in idx if all(ref.has(i, p) for p in PARS)]
            marks = {}
            if c['markers'] == 'dict':
                kw['xmarkers'] = {xs[1]: 0.3}
                kw['ymarkers'] = {ys[0]: -0.3}
            if c['xlims']:
                kw['param_limits'] = {xs[0]: tuple(c['xlims'])}
            if how == 'rect':
                roots = [[idx, idx], [idx, idx]]
                arr = g.rectangle_plot(xs, ys, roots=[samples[i] for i in idx], **kw)
            else:
                kw.pop('label_order', None)
                if 'legend_labels' in kw and c['labels'] != 'given':
                    kw.pop('legend_labels')
                if how == 'rect_y':
                    yr = [full, full[::-1]]
                    roots = [yr, yr]
                    arr = g.rectangle_plot(xs, ys, yroots=[[samples[i] for i in r] for r in yr], **{k: v for k, v in kw.items() if k != 'legend_labels'})
                else:
                    roots = [[full, full[:1]], [full[::-1], full]]
                    arr = g.rectangle_plot(xs, ys, plot_roots=[[[samples[i] for i in r] for r in rr] for rr in roots], **{k: v for k, v in kw.items() if k != 'legend_labels'})
            lim = {}
            for x, a in enumerate(xs):
                for y, b in enumerate(ys):
                    bx, by = ref.bounds2(roots[x][y], a, b)
                    for k, v in ((a, bx), (b, by)):
                        lim[k] = (min(v[0], lim[k][0]), max(v[1], lim[k][1])) if k in lim else v
            if c['xlims']:
                lim[xs[0]] = tuple(c['xlims'])
            cells = []
            for x, a in enumerate(xs):
                for y, b in enumerate(ys):
                    ax = g.subplots[y, x]
                    assert arr[x][y] is ax, 'returned axes'
                    cells.append((ax, a, b, roots[x][y]))
                    close(list(ax.get_xlim()) + list(ax.get_ylim()), [*lim[a], *lim[b]], rtol=1e-9, atol=1e-12, what='ranges of %s-%s' % (a, b))
                    ms = list(ax.lines)
                    want = c['markers'] == 'dict'
                    equal(len(ms), (want and x == 1) + (want and y == 0), 'markers')
                    if want and x == 1:
                        close(ms[0].get_xdata(), [0.3, 0.3], what='x marker')
                    if want and y == 0:
                        close(ms[-1].get_ydata(), [-0.3, -0.3], what='y marker')
                    if y == 1:
                        equal(ax.get_xlabel(), '$%s$' % LABELS[a], 'x label')
                    if x == 0:
                        equal(ax.get_ylabel(), '$%s$' % LABELS[b], 'y label')
        colors = {}
        for no, (ax, a, b, r) in enumerate(cells):
            shown = [k for k, i in enumerate(r) if ref.has(i, a) and ref.has(i, b)]
            for mine, k in zip(split_contours(ax, [filled] * len(shown), n), shown):
                d = ref.two(r[k], a, b, n)
                check_contours(mine, d, d.contours, filled, '%s-%s set %d' % (a, b, r[k]))
                col = c['colors'][k] if c['colors'] else SOLID[len(r) - k - 1] if filled else DEFAULT_STYLES[k][1]
                got = (mine[n - 1].get_facecolor() if filled else mine[n - 1].get_edgecolor())[0][:3]
                close(got, to_rgb(col), atol=1e-6, what='%s-%s colour of set %d' % (a, b, r[k]))
                if no == 0:
                    colors[k] = col
        if how in ('2d', 'pairs', 'rect') and (default or 'legend_labels' in kw) and len(colors) == len(idx):
            check_legend(g.legend, [labels[k] for k in seq], [colors[k] for k in seq])
    finally:
        plt.close('all')


@case(st.tuples(st.floats(-9.999, 9.999, allow_nan=False), st.integers(-30, 30), st.integers(0, 9)), quick=3000, thorough=60000, shards=2)
def sci_labels(c, t):
    """Full scientific tick labels state the tick value."""
    x = float('%.*f' % (c[2], c[0])) * 10. ** c[1]
    s = SciFuncFormatter()(x)
    t.nontrivial(x != 0)
    assert s[0] == s[-1] == '$', s
    body = s[1:-1].replace('{\\times}', '*').replace('10^{', '10**(').replace('}', ')')
    if body.startswith('-1*') or body.startswith('1*'):
        pass
    v = eval(body) if body else None
    assert v is not None, 'empty label for %r' % x
    close(float(v), x, rtol=1e-9, what='value of label %s' % s)


@st.composite
def tick_cases(draw):
    mant = draw(st.floats(-10, 10, allow_nan=False))
    return dict(lo=round(mant, draw(st.integers(0, 4))), width=draw(st.sampled_from([1., 0.3, 7., 0.01, 2.5, 1e-4, 13., 100., 3e4, 0.77, 1.9])) * draw(st.floats(0.5, 2)), scale=draw(st.sampled_from([1., 1., 1e-5, 1e6, 1e-9, 1e3])),
                size=draw(st.floats(0.5, 5)), font=draw(st.sampled_from([5., 8., 11., 16.])), rot=draw(st.sampled_from([0, 0, 45, 90])), axis=draw(st.sampled_from('xy')), prune=draw(st.booleans()), nbins=draw(st.sampled_from([7, 7, 'auto', 3, 5])),
                sci=draw(st.booleans()))


@case(tick_cases(), quick=600, thorough=16000, shards=8)
def ticks(c, t):
    """Ticks are inside the axis, increasing, evenly spaced, no more than allowed, and labels do not repeat."""
    from matplotlib.ticker import ScalarFormatter
    lo, hi = c['lo'] * c['scale'], (c['lo'] + c['width']) * c['scale']
    if (hi - lo) < 1e-8 * max(abs(lo), abs(hi)):
        raise Discard
    fig = plt.figure(figsize=(c['size'], c['size']))
    try:
        ax = fig.add_axes([0.1, 0.1, 0.8, 0.8])
        axis = ax.xaxis if c['axis'] == 'x' else ax.yaxis
        f = SciFuncFormatter() if c['sci'] else ScalarFormatter(useOffset=False, useMathText=True)
        if not c['sci']:
            f.set_powerlimits((-4, 5))
        axis.set_major_formatter(f)
        axis.set_tick_params(which='major', labelrotation=c['rot'], labelsize=c['font'])
        axis.set_major_locator(BoundedMaxNLocator(nbins=c['nbins'], prune=c['prune']))
        (ax.set_xlim if c['axis'] == 'x' else ax.set_ylim)(lo, hi)
        got = [float(v) for v in axis.get_majorticklocs()]
        tol = 1e-6 * (hi - lo)
        t.nontrivial(len(got) > 1)
        t.label('%d ticks' % len(got))
        for v in got:
            assert lo - tol <= v <= hi + tol, 'tick %r outside %r..%r' % (v, lo, hi)
        d = np.diff(got)
        assert np.all(d > 0), 'ticks not increasing: %s' % got
        if len(d) > 1:
            close(d, np.full(len(d), d[0]), rtol=1e-4, what='tick spacing')
        if c['nbins'] != 'auto':
            assert len(got) <= c['nbins'] + 1, '%d ticks with at most %s' % (len(got), c['nbins'])
        if not c['sci'] and len(got) > 1:
            labs = f.format_ticks(got)
            assert len(set(labs)) == len(labs), 'repeated tick labels %s' % labs
    finally:
        plt.close('all')


@st.composite
def extras(draw):
    return dict(mean=[draw(st.floats(-5, 5)), draw(st.floats(-5, 5))], sd=[draw(st.floats(0.1, 3)), draw(st.floats(0.1, 3))], rho=draw(st.floats(-0.9, 0.9)), sigma=draw(st.floats(0.01, 2)), at=draw(st.floats(-3, 3)),
                a1=draw(st.sampled_from([0, 0.2])), a2=draw(st.sampled_from([0, 0.2])), nbands=draw(st.integers(1, 3)), levels=draw(st.sampled_from([None, None, [0.5]])), filled=draw(st.booleans()), norm=draw(st.booleans()))


@case(extras(), quick=80, thorough=800, shards=4)
def shapes(c, t):
    """Covariance ellipses, analytic densities and bands are where their numbers put them."""
    t.nontrivial(True)
    cov = np.array([[c['sd'][0] ** 2, c['rho'] * c['sd'][0] * c['sd'][1]], [c['rho'] * c['sd'][0] * c['sd'][1], c['sd'][1] ** 2]])
    icov = np.linalg.inv(cov)
    g = plots.get_single_plotter()
    g.settings.tight_layout = False
    try:
        kw = dict(contour_levels=list(c['levels'])) if c['levels'] else {}
        g.add_2d_covariance(c['mean'], cov, **kw)
        ax = g.get_axes()
        cols = [x for x in ax.collections if isinstance(x, (LineCollection, PathCollection))]
        levels = sorted(c['levels'] or [0.32, 0.05])
        equal(len(cols), len(levels), 'ellipses')
        for col, lev in zip(cols, levels):
            for v in paths_of(col):
                dx = v - np.array(c['mean'])
                close(np.exp(-np.einsum('ij,jk,ik->i', dx, icov, dx) / 2), np.full(len(v), lev), rtol=0.02, what='density on the ellipse')
            ext = np.concatenate(paths_of(col)) - np.array(c['mean'])
            close(np.max(ext, axis=0), np.array(c['sd']) * np.sqrt(-2 * np.log(lev)), rtol=0.02, what='extent of the ellipse')
        # bands
        g.new_plot()
        g.make_figure()
        g.add_x_bands(c['at'], c['sigma'], alpha1=c['a1'], alpha2=c['a2'])
        ax = g.get_axes()
        want = ([2] if c['a2'] else []) + ([1] if c['a1'] else [])
        equal(len(ax.patches), len(want), 'bands')
        for pch, k in zip(ax.patches, want):
            xy = pch.get_xy()[:, 0]
            close([xy.min(), xy.max()], [c['at'] - k * c['sigma'], c['at'] + k * c['sigma']], rtol=1e-9, atol=1e-12, what='x band')
        g.new_plot()
        g.make_figure()
        g.add_y_bands(c['at'], c['sigma'], alpha1=c['a1'], alpha2=c['a2'])
        ax = g.get_axes()
        for pch, k in zip(ax.patches, want):
            xy = pch.get_xy()[:, 1]
            close([xy.min(), xy.max()], [c['at'] - k * c['sigma'], c['at'] + k * c['sigma']], rtol=1e-9, atol=1e-12, what='y band')
        g.new_plot()
        g.make_figure()
        x = np.linspace(0, 1, 5)
        e = c['sigma'] * (1 + x)
        g.add_bands(x, c['at'], e, nbands=c['nbands'])
        ax = g.get_axes()
        equal(len(ax.collections), c['nbands'], 'error bands')
        for col, k in zip(ax.collections, range(c['nbands'], 0, -1)):
            v = col.get_paths()[0].vertices
            close([v[:, 1].min(), v[:, 1].max()], [c['at'] - k * e[-1], c['at'] + k * e[-1]], rtol=1e-9, atol=1e-12, what='error band')
        # analytic distribution
        mix = GaussianND(c['mean'], cov, names=['x', 'y'], labels=['x_0', r'\beta'])
        for p, m, sd in (('x', c['mean'][0], c['sd'][0]), ('y', c['mean'][1], c['sd'][1])):
            g.new_plot()
            g.plot_1d(mix, p, normalized=c['norm'])
            line = g.subplots[0, 0].lines[0]
            xx, yy = line.get_xdata(), line.get_ydata()
            ref = np.exp(-((xx - m) / sd) ** 2 / 2)
            if c['norm']:
                ref = ref / (np.sqrt(2 * np.pi) * sd)
            close(yy, ref, rtol=2e-3, atol=1e-4 * ref.max(), what='analytic density')
        g.new_plot()
        g.plot_2d(mix, 'y', 'x', filled=c['filled'])
        ax = g.subplots[0, 0]
        equal((ax.get_xlabel(), ax.get_ylabel()), (r'$\beta$', '$x_0$'), 'labels')
        cols = [x for x in ax.collections if isinstance(x, (LineCollection, PathCollection))]
        v = np.concatenate(paths_of(cols[0]))
        got = v.max(axis=0) - np.array(c['mean'])[::-1]
        close(got, np.array(c['sd'])[::-1] * np.sqrt(-2 * np.log(1 - 0.95)), rtol=0.05, what='extent of the 95% contour')
    finally:
        plt.close('all')


@case(st.fixed_dictionaries(dict(name=st.sampled_from(['fig', 'fig.png', 'sub/fig', 'sub/fig.pdf', 'a.b/fig', './fig', 'v1.0/fig.png', 'x.y/../fig']), tag=st.sampled_from([None, None, 'tag', 'v2']),
                                 adir=st.sampled_from([None, 'out', 'my.out/deep']))), quick=40, thorough=200, shards=2)
def export_names(c, t):
    """export writes one figure file with the stated name, tag, directory and format."""
    d = t.dir()
    t.nontrivial(c['tag'] is not None or '.' in c['name'])
    old = os.getcwd()
    os.chdir(d)
    try:
        g = plots.get_single_plotter()
        g.settings.tight_layout = False
        g.make_figure()
        g.get_axes()
        os.makedirs('x.y', exist_ok=True)
        g.export(c['name'], adir=c['adir'], tag=c['tag'])
        base, ext = os.path.splitext(os.path.basename(c['name']))
        want = base + ('_' + c['tag'] if c['tag'] else '') + (ext or '.pdf')
        where = os.path.dirname(c['name']) if '/' in c['name'] else c['adir'] or ''
        want = os.path.normpath(os.path.join(where, want))
        got = sorted(os.path.normpath(os.path.relpath(os.path.join(r, f), d)) for r, _, fs in os.walk(d) for f in fs)
        equal(got, [want], 'files written')
        with open(want, 'rb') as f:
            head = f.read(8)
        equal(head[:4], b'%PDF' if want.endswith('.pdf') else b'\x89PNG', 'format of the file')
    finally:
        os.chdir(old)
        plt.close('all')


@case(st.lists(st.sampled_from(['default', 'tab10', 'mine', 'other']), min_size=1, max_size=6), quick=60, thorough=400, shards=2)
def style_changes(c, t):
    """Switching plot styles gives each its own rc settings, and the default style restores the original ones."""
    import getdist.styles.tab10  # noqa

    class Mine(plots.GetDistPlotter):
        _style_rc = {'axes.labelsize': 19, 'font.size': 7}

    class Other(plots.GetDistPlotter):
        _style_rc = {'xtick.labelsize': 17}

    plots.add_plotter_style('mine', Mine)
    plots.add_plotter_style('other', Other)
    t.nontrivial(len(set(c)) > 2)
    keys = ['axes.labelsize', 'font.size', 'xtick.labelsize', 'lines.linewidth']
    plots.set_active_style('default')
    orig = {k: matplotlib.rcParams[k] for k in keys}
    last = 'default'
    try:
        for name in c:
            equal(plots.set_active_style(name), last, 'previous style')
            last = name
            want = dict(orig)
            want.update({'mine': Mine._style_rc, 'other': Other._style_rc}.get(name, {}))
            equal({k: matplotlib.rcParams[k] for k in keys}, want, 'rc settings of style %s' % name)
            g = plots.get_single_plotter()
            equal(type(g).__name__, {'default': 'GetDistPlotter', 'tab10': 'DefaultColorsPlotter', 'mine': 'Mine', 'other': 'Other'}[name], 'plotter class')
    finally:
        plots.set_active_style('default')
        plt.close('all')
    equal({k: matplotlib.rcParams[k] for k in keys}, orig, 'rc settings after returning to the default style')
    assert raises(plots.set_active_style, 'unknown_style', exc=ValueError), 'unknown style accepted'
