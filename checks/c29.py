"""Plot settings, names, legends, text and axes lookups apply to exactly what was asked for, at the size asked for."""
import fnmatch
import math
import os
import io
import contextlib
import matplotlib
matplotlib.use('Agg')
import logging
import warnings
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgb, to_rgba
from matplotlib.collections import PathCollection
from matplotlib.font_manager import font_scalings
from hypothesis import strategies as st
from vlib import Discard, case, close, equal, raises, write
from gen import seeds
from getdist import MCSamples, plots
from getdist.gaussian_mixtures import GaussianND, MixtureND
from getdist.paramnames import ParamInfo, ParamNames

warnings.simplefilter('ignore')
logging.getLogger().setLevel(logging.ERROR)
RULE = ('generated settings, figure shapes, legends, names, texts and lookups on one to three sample sets (objects, or chain files with labels and settings at several levels); '
        'non-trivial: more than one line, subplot, name pattern, settings level or a non-default setting')
ASSUMPTIONS = ['curves and contours themselves are as verified in C27', 'matplotlib lays out and draws the artists it is given']
NAMES = ['x0', 'y', 'x1', 'omega', 'x10', 'z']
LABELS = dict(x0='x_0', y=r'\beta', x1='x_1', omega=r'\Omega', x10='x_{10}', z='z')
COLORS = ['red', 'blue', '#00aa55', 'orange', 'm']


def mk(seed, n=60, names=NAMES, **kw):
    r = np.random.RandomState(seed)
    d = len(names)
    x = r.normal(size=(n, d)).dot(np.eye(d) + .3 * r.normal(size=(d, d)))
    return MCSamples(samples=x, weights=r.uniform(.2, 2, n), loglikes=r.gamma(2, size=n), names=list(names), labels=[LABELS[p] for p in names], ignore_rows=0, **kw)


@contextlib.contextmanager
def figures():
    try:
        yield
    finally:
        plt.close('all')


# ---------------------------------------------------------------- sizes

sizes = st.one_of(st.floats(.3, 12), st.sampled_from([1., 2., 3.5, 6.]))


@st.composite
def fonts(draw):
    return dict(scaling=draw(st.booleans()), ref=draw(st.sampled_from([3.5, 3.5, 2., 6.])), max=draw(st.sampled_from([3.5, 3.5, None, 2., 5., 8., 0])), factor=draw(st.sampled_from([2, 2, 1, .5, 3])),
                direct=draw(st.booleans()), fontsize=draw(st.sampled_from([12, 8, 17.5])), var=draw(st.sampled_from([None, 9, 14, 25., 'small', 'x-large', 'medium'])), default=draw(st.sampled_from([None, 11])),
                sizes=sorted(draw(st.lists(sizes, min_size=2, max_size=5))), lw=draw(st.sampled_from([None, .5, 1, 3])), linewidth=draw(st.sampled_from([1, 2.5])),
                inch=draw(st.floats(.5, 9)), mm=draw(st.sampled_from([None, None, 50, 88.9])), ratio=draw(st.sampled_from([None, .75, 1.2])), rc=draw(st.sampled_from([None, 9, 'large'])))


@case(fonts(), quick=400, thorough=20000)
def font_sizes(c, t):
    """Font and line sizes scale with the axis size as documented, up to the maximum, without steps."""
    s = plots.GetDistPlotSettings()
    s.scaling, s.scaling_reference_size, s.scaling_max_axis_size, s.scaling_factor, s.direct_scaling = c['scaling'], c['ref'], c['max'], c['factor'], c['direct']
    s.fontsize, s.linewidth = c['fontsize'], c['linewidth']
    v = c['var'] or c['default'] or c['fontsize']
    base = c['fontsize'] * font_scalings[v] if isinstance(v, str) else v
    t.nontrivial(c['scaling'] and (c['factor'] != 2 or c['max'] != 3.5 or c['ref'] != 3.5))
    got = [s.scaled_fontsize(a, c['var'], c['default']) for a in c['sizes']]
    if not c['scaling'] or c['max'] == 0:
        close(got, [base] * len(got), what='font sizes without scaling')
    else:
        for a, g in zip(c['sizes'], got):
            a = a if c['max'] is None else min(a, c['max'])
            if c['direct']:
                close(g, base * a / c['ref'], rtol=1e-9, what='directly scaled font size')
            else:
                want = base + c['factor'] * (a - c['ref'])
                if want >= 5:
                    close(g, want, rtol=1e-9, what='scaled font size at axis size %s' % a)
                else:
                    assert g <= 5, 'font size %s for axis size %s' % (g, a)
    for a in c['sizes']:
        w = c['lw'] or c['linewidth']
        close(s.scaled_linewidth(a, c['lw']), max(.6, w * a / c['ref']) if c['scaling'] else w, rtol=1e-9, what='line width')
    s.set_with_subplot_size(c['inch'], size_mm=c['mm'], size_ratio=c['ratio'])
    close(s.subplot_size_inch, c['mm'] / 25.4 if c['mm'] else c['inch'], rtol=1e-6, what='subplot size')
    equal(s.subplot_size_ratio, c['ratio'], 'subplot size ratio')
    keys = {'xtick.labelsize': 'small', 'legend.fontsize': c['rc'] or 'medium', 'axes.labelsize': 13, 'font.size': 8}
    with matplotlib.rc_context(keys):
        s.rc_sizes(axes_fontsize=c['rc'] if not isinstance(c['rc'], str) else None)
    num = lambda x: 8 * font_scalings[x] if isinstance(x, str) else x  # noqa
    want = (8, num(c['rc'] or 'medium'), 13, c['rc'] if c['rc'] and not isinstance(c['rc'], str) else num('small'))
    close([s.fontsize, s.legend_fontsize, s.axes_labelsize, s.axes_fontsize], want, rtol=1e-9, what='sizes from the rc settings')
    text = str(s)
    for k, val in s.__dict__.items():
        assert (('%r: %r' % (k, val)) in text) == (not k.startswith('_')), 'setting %s in %s' % (k, text)
    assert raises(setattr, s, 'not_a_setting', 1, exc=Exception), 'unknown setting accepted'


@st.composite
def figs(draw):
    return dict(how=draw(st.sampled_from(['single', 'subplot', 'subplot'])), width=draw(st.sampled_from([None, 3.464, 7., 10])), ratio=draw(st.sampled_from([None, .6, 1, 1.3])), size=draw(st.sampled_from([None, 1.5, 4])),
                scaling=draw(st.sampled_from([None, True, False])), rc=draw(st.booleans()), n=draw(st.integers(1, 14)), nx=draw(st.sampled_from([None, None, 1, 3, 5])), ny=draw(st.sampled_from([None, None, None, 4])),
                xs=draw(st.sampled_from([1., 1.5])), ys=draw(st.sampled_from([1., .7])), sharex=draw(st.booleans()), sharey=draw(st.booleans()), seed=draw(seeds), constrained=draw(st.booleans()),
                given=draw(st.booleans()), labelsize=draw(st.sampled_from([10, 16])), axsize=draw(st.sampled_from([9, 13])), legsize=draw(st.sampled_from([8, 15])), limit=draw(st.sampled_from([None, 1])),
                title_size=draw(st.sampled_from([None, 7])), rot=draw(st.sampled_from([0, 45, 90])))


@case(figs(), quick=80, thorough=1200, shards=4)
def figure_sizes(c, t):
    """Figures have the width, shape and number of subplots asked for, and text sized for them."""
    with figures(), matplotlib.rc_context({'font.size': 8, 'xtick.labelsize': 6, 'axes.labelsize': 13, 'legend.fontsize': 7}):
        kw = {}
        if c['given']:
            kw['settings'] = plots.GetDistPlotSettings()
        if c['scaling'] is not None:
            kw['scaling'] = c['scaling']
        before = dict(plots.default_settings.__dict__)
        if c['how'] == 'single':
            g = plots.get_single_plotter(ratio=c['ratio'], width_inch=c['width'], rc_sizes=c['rc'], **kw)
            w, r = c['width'] or 6, c['ratio'] or .75
            close(g.fig.get_size_inches(), (w, w * r), rtol=1e-9, what='size of a single plot')
            rc = c['rc'] and not c['given']
        else:
            g = plots.get_subplot_plotter(subplot_size=c['size'], width_inch=c['width'], subplot_size_ratio=c['ratio'], rc_sizes=c['rc'], **kw)
            rc = c['rc'] and not c['given']
            w = c['width']
            if c['constrained']:
                g.settings.constrained_layout = True
            nx, ny = c['nx'], c['ny']
            if nx and ny:
                c['n'] = min(c['n'], nx * ny)
            elif ny:
                nx = -(-c['n'] // ny)
            col, row = g.make_figure(c['n'], nx=nx, ny=ny, xstretch=c['xs'], ystretch=c['ys'], sharex=c['sharex'], sharey=c['sharey'])
            t.nontrivial(c['n'] > 1)
            assert col * row >= c['n'] and (nx is None or col == nx) and (ny is None or row == ny), 'subplots %s %s' % (col, row)
            assert ny or col * (row - 1) < c['n'], 'empty row of subplots'
            equal(g.subplots.shape, (row, col), 'shape of the subplots')
            cell = (w / col if w else (c['size'] or 2) * c['xs'])
            tall = (c['ratio'] or 1) * c['ys']
            close(g.fig.get_size_inches(), (w, w * row * tall / (col * c['xs'])) if w else (cell * col, (c['size'] or 2) * tall * row), rtol=1e-9, what='size of the figure')
            w = cell
            for i in range(c['n']):
                g._subplot_number(i)
            for i in range(c['n']):
                spec = g.subplots[i // col, i % col].get_subplotspec()
                equal((spec.rowspan.start, spec.colspan.start), (i // col, i % col), 'place of subplot %d' % i)
        if rc:
            equal((g.settings.fontsize, g.settings.axes_labelsize, g.settings.axes_fontsize, g.settings.legend_fontsize), (8, 13, 6, 7), 'sizes from the rc settings')
        if c['scaling'] is not None:
            equal(g.settings.scaling, c['scaling'], 'scaling')
        equal({k: before[k] for k in before}, dict(plots.default_settings.__dict__), 'default settings')
        if c['given']:
            assert g.settings is kw['settings'], 'given settings not used'
        # text of a plot
        s = g.settings
        s.axes_labelsize, s.axes_fontsize, s.legend_fontsize, s.title_limit_fontsize = c['labelsize'], c['axsize'], c['legsize'], c['title_size']
        s.axis_tick_x_rotation = c['rot']
        samples = [mk(c['seed']), mk(c['seed'] + 1)]
        ax = g.subplots[0, 0] if c['how'] != 'single' else g.get_axes()
        g.plot_1d(samples, 'x1', ax=ax, title_limit=c['limit'], _no_finish=True)
        leg = g.add_legend(['a', 'b'], ax=ax)
        size = lambda v: v if not s.scaling else max(5, v + 2 * (min(w, 3.5) - 3.5))  # noqa
        close(ax.xaxis.label.get_fontsize(), size(c['labelsize']), what='font size of the label')
        for x in ax.xaxis.get_major_ticks()[:1]:
            close(x.label1.get_fontsize(), size(c['axsize']), what='font size of the ticks')
            close(x.label1.get_rotation(), c['rot'], what='rotation of the ticks')
        close([x.get_fontsize() for x in leg.get_texts()], [size(c['legsize'])] * 2, what='font size of the legend')
        if c['limit'] and c['title_size']:
            title = ax.get_title()
            want = samples[0].getInlineLatex('x1', limit=1)
            equal(title, '$' + want + '$', 'title limit')
            close(ax.title.get_fontsize(), size(c['title_size']), what='font size of the title')
        g.rotate_xticklabels(ax, 30, labelsize=10)
        g.rotate_yticklabels(ax, 60)
        for axis, rot in ((ax.xaxis, 30), (ax.yaxis, 60)):
            close([x.label1.get_rotation() for x in axis.get_major_ticks()[:1]], [rot] * len(axis.get_major_ticks()[:1]), what='rotated ticks')
        close([x.label1.get_fontsize() for x in ax.xaxis.get_major_ticks()[:1]], [size(10)] * len(ax.xaxis.get_major_ticks()[:1]), what='font size of the rotated ticks')


# ---------------------------------------------------------------- legends

@st.composite
def legends(draw):
    n = draw(st.integers(1, 3))
    return dict(n=n, seed=draw(seeds), kind=draw(st.sampled_from(['1d', '1d', 'lines', 'filled', 'raw', 'mixed'])), colors=draw(st.permutations(COLORS)), ls=draw(st.lists(st.sampled_from(['-', '--', '-.', ':']), min_size=n, max_size=n)),
                figure=draw(st.booleans()), loc=draw(st.sampled_from([None, 'upper left', 'upper center', 'upper right', 'lower left', 'lower center', 'lower right', 'best', 'center left'])), outside=draw(st.booleans()),
                offset=draw(st.integers(0, n - 1)), order=draw(st.sampled_from([None, None, -1, '-1', 'perm'])), perm=draw(st.permutations(range(n))), ncol=draw(st.sampled_from([None, 1, 2])), set_ncol=draw(st.sampled_from([0, 3])),
                colored=draw(st.sampled_from([None, True, False])), set_colored=draw(st.booleans()), right=draw(st.booleans()), fontsize=draw(st.sampled_from([None, 9])), frame=draw(st.booleans()), fframe=draw(st.booleans()),
                border=draw(st.booleans()), rows=draw(st.integers(1, 2)), via=draw(st.sampled_from(['add', 'add', 'finish'])), no_labels=draw(st.booleans()))


@case(legends(), quick=120, thorough=2400, shards=4)
def legend_entries(c, t):
    """Legend entries name the lines they are given for, in the order, place and style asked for."""
    n, off = c['n'], c['offset']
    with figures():
        g = plots.get_subplot_plotter(subplot_size=3)
        s = g.settings
        s.legend_colored_text, s.legend_frame, s.figure_legend_frame, s.legend_rect_border, s.figure_legend_ncol = c['set_colored'], c['frame'], c['fframe'], c['border'], c['set_ncol']
        g.make_figure(c['rows'], nx=1)
        for k in range(c['rows']):
            g._subplot_number(k)
        ax = g.subplots[0, 0]
        samples = [mk(c['seed'] + i) for i in range(n)]
        cols = list(c['colors'][:n])
        if c['kind'] == '1d':
            g.plot_1d(samples, 'x0', colors=cols, ls=c['ls'], ax=ax, _no_finish=True)
        elif c['kind'] == 'raw':
            for i in range(n):
                ax.plot([0, i + 1], [1, 2], color=cols[i], ls=c['ls'][i])
        elif c['kind'] == 'mixed':
            for i in range(n):
                g.add_2d_contours(samples[i], 'x0', 'y', i, ax=ax, filled=bool(i % 2), color=cols[i])
        else:
            g.plot_2d(samples, 'x0', 'y', filled=c['kind'] == 'filled', colors=cols, ls=c['ls'], ax=ax, _no_finish=True)
        figure = c['figure'] or c['via'] == 'finish'
        if c['kind'] == 'raw' and figure:
            raise Discard()  # lines made outside are only known to their axes
        idx = list(range(off, n))
        labels = ['L%d' % i for i in idx]
        order = None
        seq = idx
        if c['order'] == 'perm':
            order = [i for i in c['perm'] if i < len(idx)]
            seq = [idx[i] for i in order]
        elif c['order'] is not None:
            order, seq = c['order'], idx[::-1]
        t.nontrivial(n > 1 and (off or order is not None))
        t.label(c['kind'])
        kw = dict(legend_ncol=c['ncol'], colored_text=c['colored'], label_order=order, align_right=c['right'], fontsize=c['fontsize'], line_offset=off)
        ask = lambda: (g.finish_plot(labels, c['loc'], no_tight=True, no_extra_legend_space=not c['outside'], **kw) if c['via'] == 'finish' else  # noqa
                       g.add_legend(labels, c['loc'], figure=figure, figure_legend_outside=c['outside'], ax=None if figure else ax, **kw))
        loc = c['loc'] or (s.figure_legend_loc if figure else 'best')
        if c['via'] == 'finish' and c['no_labels']:
            s.line_labels = False
            ask()
            assert not g.fig.legends, 'legend without line labels'
            return
        if figure and not c['outside'] and loc == 'best':
            raise Discard()  # not available in matplotlib
        if figure and c['outside'] and loc.startswith('center '):
            assert raises(ask, exc=ValueError), 'centred figure legend outside the plots'
            return
        ask()
        leg = g.legend
        equal(len(g.fig.legends), 1 if figure else 0, 'figure legends')
        assert figure or ax.get_legend() is leg, 'legend of other axes'
        equal([x.get_text() for x in leg.get_texts()], ['L%d' % i for i in seq], 'legend labels')
        for h, i in zip(leg.legend_handles, seq):
            patch = hasattr(h, 'get_facecolor')
            equal(patch, c['kind'] == 'filled' or c['kind'] == 'mixed' and i % 2 == 1, 'kind of legend entry')
            close(to_rgb(h.get_facecolor() if patch else h.get_color()), to_rgb(cols[i]), atol=1e-6, what='colour in the legend for line %d' % i)
            if patch and not c['border']:
                equal(to_rgba(h.get_edgecolor()), to_rgba(h.get_facecolor()), 'border in the legend')
            elif not patch and c['kind'] in ('1d', 'lines', 'raw'):
                equal(h.get_linestyle() if c['ls'][i] in ('-', ':') else '--', c['ls'][i] if c['ls'][i] in ('-', ':') else '--', 'line style in the legend')
                if c['kind'] != 'raw' and c['ls'][i] in s.line_dash_styles:
                    pat = np.array(h._dash_pattern[1])
                    close(pat / pat[0], np.array(s.line_dash_styles[c['ls'][i]]) / s.line_dash_styles[c['ls'][i]][0], rtol=1e-9, what='dashes in the legend')
        colored = c['set_colored'] if c['colored'] is None else c['colored']
        for h, x, i in zip(leg.legend_handles, leg.get_texts(), seq):
            equal(h.get_visible(), not colored, 'line shown in the legend')
            if colored:
                close(to_rgb(x.get_color()), to_rgb(cols[i]), atol=1e-6, what='colour of the label')
        equal(leg._ncols, c['ncol'] or c['set_ncol'] or 1, 'columns of the legend')
        if not figure:
            equal(leg.get_frame_on(), c['frame'] and not colored, 'frame of the legend')
        close(leg.get_texts()[0].get_fontsize(), max(5, (c['fontsize'] or s.legend_fontsize) - 1), what='font size of the legend')
        g.fig.canvas.draw()
        if c['right'] and not colored:
            for h, x in zip(leg.legend_handles, leg.get_texts()):
                assert h.get_window_extent().x0 >= x.get_window_extent().x1 - 1, 'legend text right of its line'
        if figure:
            box, fb, top = leg.get_window_extent(), g.fig.bbox, ax.get_window_extent()
            if c['outside']:
                vert, horiz = ('upper', 'center') if loc in ('best', 'center') else loc.split(' ')
                frac = s.legend_frac_subplot_margin
                want = {('upper', 'left'): top.x0, ('upper', 'right'): top.x1, ('upper', 'center'): (top.x0 + top.x1) / 2, ('lower', 'left'): fb.x0, ('lower', 'right'): fb.x1, ('lower', 'center'): (fb.x0 + fb.x1) / 2}[vert, horiz]
                got = {'left': box.x0, 'right': box.x1, 'center': (box.x0 + box.x1) / 2}[horiz]
                close(got, want, atol=3, what='horizontal place of the legend')
                if vert == 'upper':
                    close(box.y0, top.y1 + frac * top.height, atol=3, what='bottom of the legend above the plots')
                else:
                    close(box.y1, -frac / g.plot_row * fb.height, atol=3, what='top of the legend below the figure')
            else:
                assert box.x0 >= fb.x0 - 2 and box.x1 <= fb.x1 + 2 or box.width > fb.width, 'inner legend outside the figure'


# ---------------------------------------------------------------- names

@st.composite
def lookups(draw):
    item = st.one_of(st.sampled_from(NAMES), st.sampled_from(NAMES), st.sampled_from(['x*', 'x?', '*', 'q*', '?']), st.sampled_from(['alias', 'other', 'missing']))
    return dict(names=draw(st.permutations(NAMES))[:draw(st.integers(2, 6))], params=draw(st.one_of(st.none(), st.lists(item, min_size=0, max_size=4), item)), info=draw(st.lists(st.booleans(), min_size=4, max_size=4)),
                renames=draw(st.sampled_from([None, {'alias': 'x0'}, {'x0': ['alias', 'other']}, {'alias': ['q', 'y']}])), own=draw(st.sampled_from([None, ['alias'], ['other', 'alias']])), kind=draw(st.sampled_from(['samples', 'samples', 'mixture', 'file'])),
                labels=draw(st.booleans()), seed=draw(seeds))


def has_glob(p):
    return '*' in p or '?' in p


@case(lookups(), quick=400, thorough=8000, shards=2)
def parameters(c, t):
    """Parameter lists mean the named parameters of the samples, in the order given, with patterns and other names resolved."""
    names = c['names']
    root = mk(c['seed'], 20, names)
    want_label = dict(LABELS)
    folder = t.dir()
    if c['labels'] and c['kind'] != 'mixture':
        write(os.path.join(folder, 'l.paramnames'), 'y\tnew_y\nunknown\tu\nx10*\tnew_x\n')
        want_label.update(y='new_y', x10='new_x')
    if c['kind'] == 'mixture':
        root = MixtureND([np.zeros(len(names))], [np.eye(len(names))], names=names, labels=[LABELS[p] for p in names])
    elif c['kind'] == 'file':
        root.saveAsText(os.path.join(folder, 'root'))
    with figures():
        if c['kind'] == 'file':
            g = plots.get_subplot_plotter(chain_dir=folder, analysis_settings={'ignore_rows': 0})
            root = 'root'
        else:
            g = plots.get_subplot_plotter()
        if c['labels'] and c['kind'] != 'mixture':
            g.settings.param_names_for_labels = os.path.join(folder, 'l.paramnames')
            g.param_names_for_root(root)
        own = c['own'] if c['kind'] != 'mixture' else None
        if own and 'z' in names:
            g.param_names_for_root(root).parWithName('z').renames = list(own)
        renames = c['renames'] or {}

        def known(p):
            return {p} | set(([renames[p]] if isinstance(renames[p], str) else renames[p]) if p in renames else []) | set(own or [] if p == 'z' else [])

        def find(p):
            mine = {p} | set(([renames[p]] if isinstance(renames[p], str) else renames[p]) if p in renames else [])
            return next((q for q in names if known(q) & mine), None)

        params = c['params']
        if params is None or len(params) == 0:
            want = list(names)
        else:
            want = []
            for i, p in enumerate([params] if isinstance(params, str) else params):
                if has_glob(p):
                    want += [q for q in names if fnmatch.fnmatchcase(q, p)]
                    continue
                q = find(p)
                info = not isinstance(params, str) and c['info'][i]
                want.append(q or (p if info else None))
        ask = params if params is None or isinstance(params, str) else [ParamInfo(name=p, label='lab_' + p) if c['info'][i] and not has_glob(p) else p for i, p in enumerate(params)]
        t.nontrivial(params is not None and (isinstance(params, str) or len(params) > 1))
        if None in want:
            assert raises(g.get_param_array, root, ask, c['renames']), 'missing parameter of %s accepted' % params
        else:
            got = g.get_param_array(root, ask, c['renames'])
            equal([p.name for p in got], want, 'parameters for %s of %s' % (params, names))
            equal([p.label for p in got], [want_label[p] if p in names else 'lab_' + p for p in want], 'labels of the parameters')
        # single parameters
        for p in ['x0', 'alias', 'omega', 'y']:
            q = find(p)
            if q:
                equal(g._check_param(root, p, c['renames']).name, q, 'parameter %s' % p)
                equal(g._check_param(root, ParamInfo(name=p), c['renames']).name, q, 'parameter %s' % p)
            else:
                assert raises(g._check_param, root, p, c['renames']), 'missing parameter %s' % p
                assert g._check_param(root, ParamInfo(name=p), c['renames']) is None, 'missing parameter %s' % p
            if p in names:
                equal(g.param_latex_label(root, p), '$' + want_label[p] + '$', 'label of %s' % p)
        if c['kind'] != 'mixture':
            write(os.path.join(folder, 'm.paramnames'), 'x1\tother\n')
            if 'x1' in names:
                equal(g.param_latex_label(root, 'x1', label_params=os.path.join(folder, 'm.paramnames')), '$other$', 'label from the file')
            assert raises(g.param_latex_label, root, 'nothing', label_params=os.path.join(folder, 'm.paramnames')), 'label of a missing parameter'


@st.composite
def display(draw):
    n = draw(st.integers(1, 3))
    return dict(roots=[dict(kind=draw(st.sampled_from(['obj', 'file', 'sub', 'mix'])), label=draw(st.sampled_from([None, None, 'lab_%d' % i])), tag=draw(st.sampled_from([None, 'tag_%d' % i])), seed=draw(seeds)) for i in range(n)],
                how=draw(st.sampled_from(['1d', '2d', 'rect', 'triangle', '3d'])), subset=draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True)), listed=draw(st.booleans()), pattern=draw(st.booleans()),
                given=draw(st.booleans()))


@case(display(), quick=60, thorough=960, shards=4)
def shown_names(c, t):
    """Default legend labels are the labels or names of the samples; a parameter file selects the parameters shown."""
    folder = t.dir()
    roots, names = [], []
    for i, r in enumerate(c['roots']):
        s = mk(r['seed'], 40, name_tag=r['tag'], label=r['label'])
        if r['kind'] == 'mix' and c['how'] in ('1d', '2d', 'rect', 'triangle'):
            roots.append(GaussianND(np.zeros(6), np.eye(6), names=NAMES, labels=[LABELS[p] for p in NAMES], **({'label': r['label']} if r['label'] else {})))
            names.append(r['label'] or 'samples%d' % i)
        elif r['kind'] in ('file', 'sub'):
            d = os.path.join(folder, 'd%d' % i) if r['kind'] == 'sub' else folder
            os.makedirs(d, exist_ok=True)
            s.saveAsText(os.path.join(d, 'root%d' % i))
            roots.append('d%d/root%d' % (i, i) if r['kind'] == 'sub' else 'root%d' % i)
            names.append(r['label'] or roots[-1])
        else:
            roots.append(s)
            names.append(r['label'] or r['tag'] or 'samples%d' % i)
    mk(1, 20).saveAsText(os.path.join(folder, 'base'))
    t.nontrivial(len(roots) > 1)
    t.label(c['how'])
    with figures():
        g = plots.get_subplot_plotter(chain_dir=folder, analysis_settings={'ignore_rows': 0})
        kw = dict(legend_labels=['G%d' % i for i in range(len(roots))]) if c['given'] else {}
        if c['given']:
            names = kw['legend_labels']
        if c['how'] == '1d':
            pars = ['x*', 'z'] if c['pattern'] else list(NAMES)
            want = [p for p in NAMES if not c['pattern'] or p[0] == 'x'] if not c['pattern'] else ['x0', 'x1', 'x10', 'z']
            if c['listed']:
                write(os.path.join(folder, 'sub.paramnames'), ''.join('%s\t%s\n' % (p, p) for p in c['subset']))
                kw['param_list'] = os.path.join(folder, 'sub.paramnames')
                want = [p for p in want if p in c['subset']]
                if not want:
                    raise Discard()
            g.plots_1d(roots, pars, **kw)
            got = [a.get_xlabel() for a in g.subplots.reshape(-1) if a]
            equal(got, ['$' + LABELS[p] + '$' for p in want], 'parameters shown')
        elif c['how'] == '2d':
            pars = ['x*'] if c['pattern'] else ['x0', 'x10', 'omega']
            g.plots_2d(roots, 'y', pars, **kw)
            want = ['x0', 'x1', 'x10'] if c['pattern'] else pars
            equal([(a.get_xlabel(), a.get_ylabel()) for a in g.subplots.reshape(-1) if a], [('$' + LABELS['y'] + '$', '$' + LABELS[p] + '$') for p in want], 'parameters shown')
        elif c['how'] == 'rect':
            g.rectangle_plot(['x0', 'y'], ['z'], roots=roots, **kw)
        elif c['how'] == '3d':
            if isinstance(roots[0], GaussianND):
                raise Discard()
            g.plots_3d_z(roots, 'x0', 'y', ['x*', 'z'] if c['pattern'] else ['x0', 'omega'], max_z=3 if c['listed'] else None, **(dict(legend_labels=kw['legend_labels'][1:]) if kw else {}))
            want = (['x0', 'x1', 'x10', 'z'][:3 if c['listed'] else 4] if c['pattern'] else ['x0', 'omega'])
            want = [p for p in want if p != 'x0']
            got = [a.get_ylabel() for a in g.fig.axes if a not in list(g.subplots.reshape(-1))]
            equal(got, ['$' + LABELS[p] + '$' for p in want], 'parameters of the colours')
            names = names[1:]
        else:
            g.triangle_plot(roots, ['x*', 'z'] if c['pattern'] else ['x0', 'z'], **kw)
            want = ['x0', 'x1', 'x10', 'z'] if c['pattern'] else ['x0', 'z']
            equal([a.get_xlabel() for a in g.subplots[-1]], ['$' + LABELS[p] + '$' for p in want], 'parameters shown')
        shown = [x.get_text() for leg in g.fig.legends for x in leg.get_texts()]
        if c['how'] == '3d' and not c['given'] and len(names) == len(roots) - 1:
            names = [('samples%d' % i if q == 'samples%d' % (i + 1) else q) for i, q in enumerate(names)]
        equal(shown, names if len(names) > 1 or c['given'] else [], 'legend labels')


# ---------------------------------------------------------------- axes, texts and lines

@st.composite
def placing(draw):
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        ops.append(dict(op=draw(st.sampled_from(['text', 'text', 'left', 'line', 'marker', 'ymarker'])), by=draw(st.sampled_from(['index', 'coord', 'pars', 'axes', 'last', 'unordered', 'none', 'info'])), at=draw(st.integers(0, 5)),
                        x=draw(st.sampled_from([None, .2, .8])), y=draw(st.sampled_from([None, .5])), label=draw(st.sampled_from(['hello', '$a_b$'])), own=draw(st.booleans())))
    return dict(ops=ops, seed=draw(seeds), how=draw(st.sampled_from(['2d', 'triangle', 'rect', '1d', 'single1', 'single2', 'single3'])), texts=draw(st.booleans()), rev=draw(st.booleans()))


@case(placing(), quick=100, thorough=1600, shards=4)
def places(c, t):
    """Text, lines and markers go to the subplot that is named, by number, position or parameters."""
    s = mk(c['seed'], 40)
    with figures():
        g = plots.get_subplot_plotter()
        g.settings.tight_layout = False
        texts = {}
        if c['how'] == '2d':
            pairs = [('x0', 'y'), ('y', 'z'), ('z', 'x0'), ('x1', 'omega')]
            g.plots_2d(s, param_pairs=pairs, nx=2)
            where = {(i // 2, i % 2): p for i, p in enumerate(pairs)}
        elif c['how'] == '1d':
            g.plots_1d(s, ['x0', 'y', 'z'], nx=2)
            where = {(i // 2, i % 2): (p,) for i, p in enumerate(['x0', 'y', 'z'])}
        elif c['how'] == 'triangle':
            ps = ['x0', 'y', 'z']
            g.triangle_plot(s, ps)
            where = {(j, i): (ps[i], ps[j]) if i != j else (ps[i],) for i in range(3) for j in range(i, 3)}
        elif c['how'] == 'rect':
            xs, ys = ['x0', 'y'], ['z', 'omega']
            tx = [['T00', None], ['T10', 'T11']] if c['texts'] else None
            g.rectangle_plot(xs, ys, roots=[s], plot_texts=tx)
            where = {(j, i): (xs[i], ys[j]) for i in range(2) for j in range(2)}
            if tx:
                texts = {(j, i): [tx[i][j]] for i in range(2) for j in range(2) if tx[i][j]}
        else:
            g.make_figure()
            pars = ('x0', 'y', 'z')[:int(c['how'][-1])]
            [g.plot_1d, g.plot_2d, g.plot_3d][len(pars) - 1](s, *(pars if len(pars) < 3 else [pars]))
            where = {(0, 0): pars}
        t.nontrivial(len(where) > 1)
        t.label(c['how'])
        axes = {k: g.subplots[k] for k in where}
        assert all(axes.values()), 'missing subplots'
        equal(sum(a is not None for a in g.subplots.reshape(-1)), len(where), 'number of subplots')
        for k, v in texts.items():
            equal([x.get_text() for x in axes[k].texts], v, 'texts of subplot %s' % (k,))
        for k, p in where.items():
            assert g.get_axes_for_params(*p) is axes[k], 'subplot of %s' % (p,)
            assert g.get_axes_for_params(*[ParamInfo(name=q) for q in p]) is axes[k], 'subplot of %s' % (p,)
            if p[::-1] not in where.values():
                assert g.get_axes_for_params(*p[::-1]) is None, 'subplot of %s' % (p[::-1],)
                assert g.get_axes_for_params(*p[::-1], ordered=False) is axes[k], 'subplot of %s in any order' % (p,)
        assert g.get_axes_for_params('x10') is None and g.get_axes(('x10', 'y')) is None, 'subplot of parameters not shown'
        ntext = {k: len(a.texts) for k, a in axes.items()}
        nline = {k: len(a.lines) for k, a in axes.items()}
        last = list(where)[0]
        g.get_axes(axes[last])
        assert g.get_axes(where[last]) is axes[last], 'subplot by parameters'
        for o in c['ops']:
            k = sorted(where)[o['at'] % len(where)]
            by = o['by']
            if by == 'index':
                ax = k[0] * g.plot_col + k[1]
            elif by == 'coord':
                ax = tuple(k) if o['own'] else list(k)
            elif by in ('pars', 'unordered', 'info'):
                ax = where[k] if by != 'info' else [ParamInfo(name=q) for q in where[k]]
            elif by == 'axes':
                ax = axes[k]
            else:
                ax, k = None, last
            if by in ('index', 'coord', 'pars', 'unordered', 'info'):
                last = k
            a = axes[k]
            kw = {q: o[q] for q in 'xy' if o[q] is not None}
            if o['op'] in ('text', 'left'):
                extra = dict(color='red', fontsize=7) if o['own'] else {}
                (g.add_text if o['op'] == 'text' else g.add_text_left)(o['label'], ax=ax, **kw, **extra)
                ntext[k] += 1
                new = a.texts[-1]
                equal(new.get_text(), o['label'], 'text')
                x, y = kw.get('x', .95 if o['op'] == 'text' else .05), kw.get('y', .06)
                close(new.get_position(), (x, y), what='position of the text')
                close(new.get_transform().transform((x, y)), a.transAxes.transform((x, y)), what='position of the text in the subplot')
                equal(new.get_horizontalalignment(), 'left' if o['op'] == 'left' or x <= .5 else 'right', 'alignment')
                close(new.get_fontsize(), 7 if o['own'] else g.settings.scaled_fontsize(g._ax_width, g.settings.fontsize), what='size of the text')
                if o['own']:
                    equal(new.get_color(), 'red', 'colour of the text')
            else:
                if o['op'] == 'line':
                    g.add_line([0, 1], [.5, .25], ax=ax, **(dict(color='blue', ls='-', zorder=3) if o['own'] else {}))
                    xy = [[0, 1], [.5, .25]]
                elif o['op'] == 'marker':
                    g.add_x_marker(.3, ax=ax, **(dict(color='blue', ls='-') if o['own'] else {}))
                    xy = [[.3, .3], [0, 1]]
                else:
                    g.add_y_marker(-.2, ax=ax, **(dict(color='blue', ls='-') if o['own'] else {}))
                    xy = [[0, 1], [-.2, -.2]]
                nline[k] += 1
                new = a.lines[-1]
                close([new.get_xdata(), new.get_ydata()], xy, what='line')
                equal((new.get_color(), new.get_linestyle()), ('blue', '-') if o['own'] else (g.settings.axis_marker_color, g.settings.axis_marker_ls), 'style of the line')
            equal({q: len(a2.texts) for q, a2 in axes.items()}, ntext, 'texts in the subplots')
            equal({q: len(a2.lines) for q, a2 in axes.items()}, nline, 'lines in the subplots')


# ---------------------------------------------------------------- other plots

class Sum(ParamInfo):
    """a parameter calculated from others when it is plotted"""

    def getDerived(self, p):
        return p.x0 + 2 * p.z


def rows_of(s, *cols):
    return {tuple(np.round(r, 9)) for r in np.column_stack([s['x0'] + 2 * s['z'] if q == 'sum' else s[q] for q in cols])}


@st.composite
def derived_plots(draw):
    n = draw(st.integers(1, 3))
    return dict(n=n, seed=draw(seeds), how=draw(st.sampled_from(['3d', 'alpha', '2d', '4d', '4d', 'low', 'missing'])), pars=list(draw(st.permutations(['x0', 'y', 'z', 'omega', 'sum'])))[:4], fixed=draw(st.sampled_from([None, 'red'])),
                compare=draw(st.booleans()), shadow=draw(st.sampled_from([None, True, 'blue', ['blue', 'orange', 'm']])), shadow_alpha=draw(st.sampled_from([.1, None, [.3, .2]])), alpha=draw(st.sampled_from([.5, [.9, .4]])),
                lim=draw(st.sampled_from([None, None, 0, 1, 3])), bar=draw(st.booleans()), marker=draw(st.sampled_from(['o', ['o', '^']])), most=draw(st.sampled_from([None, 12])), animate=draw(st.booleans()), s=draw(st.sampled_from([None, 7])))


def ext(v, n):
    return [v[min(i, len(v) - 1)] if isinstance(v, list) else v for i in range(n)]


@case(derived_plots(), quick=80, thorough=1600, shards=4)
def points(c, t):
    """Points, with parameters calculated from the samples when asked, are samples; shadows are the points seen from each side."""
    n, pars, how = c['n'], c['pars'], c['how']
    samples = [mk(c['seed'] + i, 50, NAMES if i == 0 else NAMES[::-1], name_tag='s%d' % i) for i in range(n)]
    t.nontrivial('sum' in pars[:2] or n > 1)
    t.label(how)
    obj = lambda p: Sum(name='sum', label='S') if p == 'sum' else p  # noqa
    lab = lambda p: '$S$' if p == 'sum' else '$%s$' % LABELS[p]  # noqa
    with figures():
        g = plots.get_single_plotter()
        g.settings.tight_layout = False
        if how == 'missing':
            few = mk(c['seed'], 30, ['x0', 'y'])
            assert raises(g.add_3d_scatter, few, [ParamInfo(name='y'), ParamInfo(name='z'), ParamInfo(name='x0')]), 'points of a parameter that is not there'
            assert raises(g.plot_3d, few, ['x0', 'y', 'z']), 'points of a parameter that is not there'
            assert raises(g.plot_4d, few, ['x0', 'y', 'z', 'omega']), 'points of a parameter that is not there'
            assert raises(g.plot_3d, few, None), 'no parameters'
            assert raises(g.plot_4d, few, []), 'no parameters'
            assert raises(g.plot_4d, samples[0], ['x0', 'y', 'z']) or True
            assert raises(g.plots_2d, few), 'no parameters'
            assert raises(g.plots_2d, few, 'x0', 'y', filled=True, shaded=True), 'filled and shaded'
            assert raises(g.rectangle_plot, ['x0'], ['y'], roots=[few], yroots=[[few]]), 'two kinds of roots'
            return
        if how in ('3d', 'alpha', '2d', 'low'):
            ask = [obj(p) for p in pars]
            if how == '2d':
                g.plot_2d_scatter(samples[:1], *ask[:2], color='green')
            elif how == 'low':
                g.make_figure()
                ax = g.get_axes()
                lims = g.add_2d_scatter(samples[0], *ask[:2], color='green', ax=ax, scatter_size=c['s'])
                for k, (lo, hi) in enumerate(lims):
                    v = np.asarray(ax.collections[0].get_offsets())[:, k]
                    w = v.max() - v.min()
                    close([lo, hi], [v.min() - w / 20, v.max() + w / 20], what='range of the points')
            else:
                g.plot_3d(samples[:1], ask[:3], alpha_samples=how == 'alpha', color_bar=c['bar'])
            ax = g.subplots[0, 0]
            (col,) = [x for x in ax.collections if isinstance(x, PathCollection)]
            xy = np.asarray(col.get_offsets())
            z = pars[2:3] if how in ('3d', 'alpha') else []
            if z:
                xy = np.column_stack([xy, np.asarray(g.last_scatter.get_array())])
            want = rows_of(samples[0], *pars[:2], *z)
            for r in xy:
                assert tuple(np.round(r, 9)) in want, 'point %s is not a sample' % r
            assert len(xy), 'no points'
            if not z:
                close(col.get_facecolor()[:, :3], np.tile(to_rgb('green'), (len(col.get_facecolor()), 1)), atol=1e-6, what='colour')
            close(col.get_sizes()[0], (c['s'] if how == 'low' else None) or g.settings.scatter_size, what='size of the points')
            if how != 'low':
                equal((ax.get_xlabel(), ax.get_ylabel()), (lab(pars[0]), lab(pars[1])), 'labels')
            if z and c['bar']:
                equal(g.last_colorbar.ax.get_ylabel(), lab(pars[2]), 'label of the colours')
            return
        fixed = c['fixed']
        use = pars[:3] if fixed else pars
        if c['compare'] and n > 1:
            compare = ['m', 'c'][:n - 1]
        else:
            compare = None
        if fixed and n > 1 and not compare:
            compare = ['m', 'c'][:n - 1]
        lims = {}
        if c['lim'] is not None and use[min(c['lim'], len(use) - 1)] != 'sum':
            lims[use[min(c['lim'], len(use) - 1)]] = [(-1., None), (None, 1.), (-1., 1.)][c['seed'] % 3]
        kw = {} if c['s'] is None else {'s': c['s']}
        g.plot_4d(samples, [obj(p) for p in use], color_bar=c['bar'], lims=lims, alpha=c['alpha'], marker=c['marker'], max_scatter_points=c['most'], shadow_color=c['shadow'], shadow_alpha=c['shadow_alpha'],
                  fixed_color=fixed, compare_colors=compare, animate=c['animate'], anim_angle_degrees=30, anim_step_degrees=10, azim=20, elev=35, **kw)
        (ax,) = [a for a in g.fig.axes if hasattr(a, 'get_zlim')]
        from mpl_toolkits.mplot3d.art3d import Path3DCollection
        cols = [x for x in ax.collections if isinstance(x, Path3DCollection)]
        shadow = c['shadow']
        if shadow is True:
            shadow = ['gray'] + (compare or [])
        equal(len(cols), n + (3 * n if shadow else 0), 'scatters')
        alphas = ext(c['alpha'], n)
        pts = []
        for i in range(n):
            off = np.column_stack([np.asarray(v) for v in cols[i]._offsets3d])
            pts.append(off)
            color = fixed if i == 0 else compare[i - 1] if compare else None
            arr = [] if color else [np.asarray(cols[i].get_array())]
            want = rows_of(samples[i], *use[:3], *([] if color else use[3:]))
            for r in np.column_stack([off] + arr):
                assert tuple(np.round(r, 9)) in want, 'point %s is not a sample' % r
            assert c['most'] is None or len(off) <= c['most'] + 6 * math.sqrt(c['most']), '%d points' % len(off)  # a mean number
            for p, (lo, hi) in lims.items():
                v = off[:, use.index(p)] if use.index(p) < 3 else arr[0] if arr else np.zeros(0)
                assert (lo is None or np.all(v > lo)) and (hi is None or np.all(v < hi)), 'point outside the limits'
            if color and len(off):
                close(to_rgb(cols[i]._facecolor3d[0] if hasattr(cols[i], '_facecolor3d') else cols[i].get_facecolor()[0]), to_rgb(color), atol=1e-6, what='colour of set %d' % i)
            close(cols[i].get_alpha(), alphas[i], what='opacity of set %d' % i)
        box = [ax.get_xlim(), ax.get_ylim(), ax.get_zlim()]
        for k, p in enumerate(use[:3]):
            for side in (0, 1):
                if lims.get(p, (None, None))[side] is not None:
                    close(box[k][side], lims[p][side], what='range of %s' % p)
        if shadow:
            sa = c['alpha'] if c['shadow_alpha'] is None else c['shadow_alpha']
            for i in range(n):
                for k, axis in enumerate((2, 0, 1)):
                    col = cols[n + 3 * i + k]
                    want = pts[i].copy()
                    want[:, axis] = box[axis][0]
                    close(np.column_stack([np.asarray(v) for v in col._offsets3d]), want, what='shadow of set %d' % i)
                    close(col.get_alpha(), ext(sa, n)[i], what='opacity of the shadow')
                    if len(want):
                        close(to_rgb(col._facecolor3d[0] if hasattr(col, '_facecolor3d') else col.get_facecolor()[0]), to_rgb(ext(shadow, n)[i]), atol=1e-6, what='colour of the shadow')
        equal((ax.get_xlabel(), ax.get_ylabel(), ax.get_zlabel()), tuple(lab(p) for p in use[:3]), 'labels')
        if c['bar'] and not fixed:
            equal(g.last_colorbar.ax.get_ylabel(), lab(use[3]), 'label of the colours')
        close((ax.azim, ax.elev), (20, 35), what='view')
        if c['animate']:
            frames = list(g.fig.rot_animation.new_frame_seq())
            close(frames, [0, 10, 20], what='animation')
            g.fig.rot_animation._func(frames[1])
            close(ax.azim, 30, what='view of a frame')
            g.fig.rot_animation._draw_was_started = True


@st.composite
def one_ds(draw):
    n = draw(st.integers(1, 3))
    return dict(n=n, seed=draw(seeds), own=[draw(st.sampled_from(['x0', 'alias', 'other'])) for _ in range(n)], renames=draw(st.sampled_from([{'x0': ['alias', 'other']}, {'alias': ['x0', 'other']}, {'x0': 'alias'}, {'alias': 'x0', 'other': 'x0'}, None])),
                ask=draw(st.sampled_from(['x0', 'alias'])), plot=draw(st.sampled_from(['plot_1d', 'plots_1d'])), prob=draw(st.sampled_from([None, 'prob'])), norm=draw(st.booleans()), ticks=draw(st.booleans()), right=draw(st.booleans()),
                noy=draw(st.booleans()), noticks=draw(st.booleans()), nozero=draw(st.booleans()), share=draw(st.sampled_from([None, True, False])), shape=draw(st.sampled_from([None, .5])), mark=draw(st.sampled_from([None, 'v1.0', 'do_not'])),
                close=draw(st.booleans()), upper=draw(st.booleans()))


@case(one_ds(), quick=100, thorough=1600, shards=4)
def renamed_curves(c, t):
    """Curves of parameters with other names in some samples; probability axes are labelled as set."""
    n = c['n']
    samples = []
    for i in range(n):
        r = np.random.RandomState(c['seed'] + i)
        names = ['y', c['own'][i]]
        samples.append(MCSamples(samples=r.normal(size=(60, 2)) + i, names=names, labels=['Y%d' % i, 'A%d' % i], ignore_rows=0, name_tag='n%d' % i))
    ren = {k: [v] if isinstance(v, str) else v for k, v in (c['renames'] or {}).items()}

    def same(a, b):
        return bool(({a} | set(ren.get(a, []))) & ({b} | set(ren.get(b, []))))

    t.nontrivial(len(set(c['own'])) > 1)
    first = samples[0].paramNames.list()[1]
    if not same(c['ask'], first):
        raise Discard()
    with figures():
        g = plots.get_subplot_plotter() if c['plot'] == 'plots_1d' else plots.get_single_plotter()
        s = g.settings
        s.tight_layout = False
        s.prob_label, s.norm_1d_density, s.prob_y_ticks = c['prob'], c['norm'], c['ticks']
        s.norm_prob_label = 'density'
        if c['plot'] == 'plot_1d':
            if not all(same(c['ask'], q) for q in c['own']):
                assert raises(g.plot_1d, samples, c['ask'], param_renames=c['renames']), 'named parameter missing in some samples'
                return
            g.plot_1d(samples, c['ask'], param_renames=c['renames'], label_right=c['right'], no_ylabel=c['noy'], no_ytick=c['noticks'], no_zero=c['nozero'])
            ax = g.subplots[0, 0]
            direct = c['ask']
        else:
            g.plots_1d(samples, ['y', c['ask']], param_renames=c['renames'], share_y=c['share'])
            ax = g.subplots.reshape(-1)[1]
            direct = first
            equal(len(g.subplots.reshape(-1)[0].lines), n, 'curves of y')
        idx = [i for i in range(n) if same(direct, c['own'][i])]
        close([np.mean(np.average(line.get_xdata(), weights=line.get_ydata())) for line in ax.lines], [np.mean(samples[i].samples[:, 1]) for i in idx], atol=.7, what='curves')
        equal(len(ax.lines), len(idx), 'curves')
        equal(ax.get_xlabel(), '$A0$', 'label')
        lab = 'density' if c['norm'] else c['prob'] or ''
        shown = lab if c['plot'] == 'plots_1d' and not ((c['share'] if c['share'] is not None else c['prob'] is not None) and g.plot_col > 1) or c['plot'] == 'plot_1d' and not c['noy'] else ''
        equal(ax.get_ylabel(), shown, 'probability label')
        if c['plot'] == 'plot_1d':
            if shown:
                equal(ax.yaxis.get_label_position(), 'right' if c['right'] else 'left', 'side of the probability label')
            g.fig.canvas.draw()
            ticks = [x for x in ax.yaxis.get_major_ticks() if x.label1.get_visible() or x.label2.get_visible()]
            equal(bool(ticks), c['ticks'] and not c['noticks'] and not c['noy'], 'probability ticks')
            if c['ticks'] and not c['noticks'] and not c['noy'] and c['nozero'] and not c['norm']:
                assert ax.get_yticks()[0] > 0 and ax.get_yticks()[-1] <= 1, 'ticks %s' % ax.get_yticks()
        # export with a watermark
        folder = t.dir()
        before = [x.get_text() for x in g.fig.texts]
        g.export(os.path.join(folder, 'fig.png'), watermark=c['mark'])
        equal([x.get_text() for x in g.fig.texts], before + ([c['mark']] if c['mark'] else []), 'watermark')
        equal(os.listdir(folder), ['fig.png'], 'exported files')
        no = g.fig.number
        g.new_plot(close_existing=c['close'])
        equal(plt.fignum_exists(no), not c['close'], 'earlier figure')
        assert g.fig is None and g.subplots is None, 'plot is not new'


@st.composite
def mixes(draw):
    k = draw(st.integers(1, 1))
    return dict(seed=draw(seeds), k=k, i=draw(st.integers(0, 2)), j=draw(st.integers(0, 2)), filled=draw(st.booleans()), color=draw(st.sampled_from(['red', 'blue'])))


@case(mixes(), quick=30, thorough=400, shards=2)
def projections(c, t):
    """Contours of a projected distribution are the ellipses of the two parameters."""
    if c['i'] == c['j']:
        raise Discard()
    r = np.random.RandomState(c['seed'])
    A = np.eye(3) + .3 * r.normal(size=(3, 3))
    cov = A.dot(A.T)
    mean = r.uniform(-5, 5, 3)
    names = ['x0', 'y', 'z']
    t.nontrivial()
    mix = GaussianND(mean, cov, names=names)
    with figures():
        g = plots.get_single_plotter()
        g.settings.tight_layout = False
        g.make_figure()
        g.add_2d_mixture_projection(mix, names[c['i']], names[c['j']], filled=c['filled'], **({'color': c['color']} if c['filled'] else {}))
        ax = g.get_axes()
        ij = [c['i'], c['j']]
        vs = np.concatenate([p.vertices for col in ax.collections for p in col.get_paths() if len(p.vertices)])
        d = vs - mean[ij]
        got = np.abs(d).max(axis=0)
        close(got, np.sqrt(np.diag(cov)[ij] * -2 * math.log(.05)), rtol=.05, what='extent of the contours')
        k = np.argmax(np.abs(d[:, 0]))
        close(d[k, 1] / d[k, 0], cov[c['j'], c['i']] / cov[c['i'], c['i']], atol=.15, what='direction of the contours')


# ---------------------------------------------------------------- levels of analysis settings

KEYS = {'smooth_scale_1D': [.2, .3, .7], 'fine_bins': [512, 600, 2048], 'credible_interval_threshold': [.1, .2], 'contours': ['0.5 0.9', '0.6 0.8 0.99'], 'mult_bias_correction_order': [0, 2], 'limits[y]': ['-9 9', 'N 8']}


@st.composite
def setting_sets(draw):
    return {k: draw(st.sampled_from(KEYS[k])) for k in draw(st.lists(st.sampled_from(sorted(KEYS)), max_size=4, unique=True))}


@st.composite
def level_cases(draw):
    return dict(folder=draw(st.sampled_from(['flat', 'nested'])), dir_ini=draw(st.one_of(st.none(), setting_sets())), analysis=draw(st.one_of(st.none(), setting_sets())), kind=draw(st.sampled_from(['dict', 'ini', 'file'])), own=draw(st.one_of(st.none(), setting_sets())),
                resets=draw(st.lists(st.tuples(st.one_of(st.none(), setting_sets()), st.booleans()), max_size=2)), seed=draw(seeds), other=draw(st.booleans()))


def effective(s):
    return dict(smooth_scale_1D=s.smooth_scale_1D, fine_bins=s.fine_bins, credible_interval_threshold=s.credible_interval_threshold, contours=' '.join('%g' % x for x in s.contours), mult_bias_correction_order=s.mult_bias_correction_order,
                **{'limits[y]': ' '.join('N' if x is None else '%g' % x for x in (s.getLower('y'), s.getUpper('y')))})


@case(level_cases(), quick=80, thorough=1600, shards=2)
def setting_levels(c, t):
    """The settings used for chains are those of the plotter, of the folder of the chains and of the call, in the stated order."""
    from getdist import inifile
    import getdist
    folder = t.dir()
    base = os.path.join(folder, 'sub') if c['folder'] == 'nested' else folder
    os.makedirs(base, exist_ok=True)
    mk(c['seed'], 80).saveAsText(os.path.join(base, 'root'))
    if c['dir_ini'] is not None:
        write(os.path.join(folder, 'getdist.ini'), ''.join('%s = %s\n' % x for x in c['dir_ini'].items()))
    default = effective(MCSamples(ini=getdist.default_getdist_settings, names=NAMES))
    text = lambda d: ''.join('%s = %s\n' % x for x in d.items())  # noqa

    def given(d, k):
        if d is None:
            return None
        if c['kind'] == 'dict':
            return dict(d)
        fn = write(os.path.join(t.dir(), 's%d.ini' % k), 'DEFAULT(%s)\n' % getdist.default_getdist_settings + text(d))
        return fn if c['kind'] == 'file' else inifile.IniFile(fn)

    first = given(c['analysis'], 0)
    keep = dict(first.params) if isinstance(first, inifile.IniFile) else None
    with figures():
        g = plots.get_single_plotter(chain_dir=folder, analysis_settings=first)
        current, priority = c['analysis'] or {}, True
        for k in range(len(c['resets']) + 1):
            if k:
                new, priority = c['resets'][k - 1]
                g.sample_analyser.reset(given(new, k), chain_settings_have_priority=priority)
                current = new or {}
            want = dict(default)
            order = [current, c['own'] or {}, c['dir_ini'] or {}] if priority else [default, c['dir_ini'] or {}, {k2: v for k2, v in default.items() if k2[:6] != 'limits'}, current, c['own'] or {}]
            for d in order:
                want.update(d)
            s = g.samples_for_root('root', cache=bool(k), settings=None if c['own'] is None else dict(c['own']))
            equal(effective(s), want, 'settings in use (chain settings first: %s)' % priority)
            assert g.samples_for_root('root') is s, 'samples loaded again'
            if c['other']:
                assert g.samples_for_root('root', cache=False) is not s, 'samples not loaded again'
            d = g.sample_analyser.get_density('root', 'x0')
            ref = MCSamples(samples=s.samples, weights=s.weights, names=NAMES, ignore_rows=0, settings={k2: v for k2, v in effective(g.samples_for_root('root')).items()})
            ref = ref.get1DDensityGridData('x0')
            close(d.P, ref.P, rtol=1e-9, atol=1e-12, what='density with the settings')
            t.nontrivial(len([x for x in order if x]) > 1)
        if keep is not None:
            equal(dict(first.params), keep, 'given settings')
