import copy
import math
import os
import numpy as np
import pandas as pd
import yaml
from hypothesis import strategies as st
from vlib import case, close, equal, raises, read, write
from gen import seeds
from getdist import cobaya_interface as ci, yaml_tools, loadMCSamples
from getdist.mcsamples import MCSamplesFromCobaya
from getdist.paramnames import ParamNames
from getdist.parampriors import ParamBounds

RULE = ('Cobaya info dictionaries with sampled (interval, min/max, distribution), derived, fixed and function parameters, priors, likelihoods and post-processing '
        'add/remove/skip, as dictionary and file; non-trivial: post-processing, a distribution prior or a bounded derived parameter')
ASSUMPTIONS = ['info in the expanded form written by Cobaya (updated.yaml)', 'scipy.stats supports of the distributions used are as documented']

INF = float('inf')


def ev(x):
    return x


@st.composite
def params(draw, name):
    """-> yaml-able parameter info, kind, (lower, upper)"""
    k = draw(st.sampled_from(['interval', 'minmax', 'one', 'dist', 'dist0', 'uniform', 'derived', 'derived_none', 'derived_range', 'fixed', 'fixed_dict', 'lambda',
                              'lambda_dropped']))
    a = draw(st.integers(-50, 50)) / 8.
    b = a + draw(st.integers(1, 40)) / 8.
    out = {}
    if draw(st.booleans()):
        out['latex'] = draw(st.sampled_from([r'\Omega_m', 'H_0', 'x y', r'A_\mathrm{s}']))
    if draw(st.integers(0, 3)) == 0:
        out['renames'] = draw(st.sampled_from([name + '_other', [name + '_o1', name + '_o2']]))
    if k == 'interval':
        return dict(out, prior=[a, b]), 's', [a, b]
    if k == 'minmax':
        return dict(out, prior=dict(min=a, max=b), ref=dict(dist='norm', loc=0, scale=0.1), proposal=0.1), 's', [a, b]
    if k == 'one':
        lo = draw(st.booleans())
        return dict(out, prior=dict([('min', a)] if lo else [('max', b)])), 's', [a, None] if lo else [None, b]
    if k == 'uniform':
        return dict(out, prior=dict(dist='uniform', loc=a, scale=b - a)), 's', [a, b]
    if k in ('dist', 'dist0'):
        d, lo, hi = draw(st.sampled_from([('norm', -INF, INF), ('expon', 0, INF), ('uniform', 0, 1), ('cauchy', -INF, INF), ('arcsine', 0, 1), ('beta', 0, 1),
                                          ('halfnorm', 0, INF), ('truncnorm', -1.5, 2.5)]))
        prior = dict(dist=d)
        if d == 'beta':
            prior.update(a=2., b=3.)
        if d == 'truncnorm':
            prior.update(a=-1.5, b=2.5)
        loc, scale = 0, 1
        if k == 'dist':
            if draw(st.booleans()):
                prior['loc'] = loc = a
            if 'loc' not in prior or draw(st.booleans()):
                prior['scale'] = scale = b - a
        lim = [None if math.isinf(v) else loc + scale * v for v in (lo, hi)]
        return dict(out, prior=prior), 's', lim
    if k == 'derived':
        return dict(out, derived=True), 'd', [None, None]
    if k == 'derived_none':
        return (None if draw(st.booleans()) else (out or {'latex': 'z'})), 'd', [None, None]
    if k == 'derived_range':
        which = draw(st.sampled_from(['min', 'max', 'both']))
        if which != 'max':
            out['min'] = a
        if which != 'min':
            out['max'] = b
        return dict(out, derived=True) if draw(st.booleans()) else out, 'd', [out.get('min'), out.get('max')]
    if k == 'fixed':
        return a, 'f', [a, a]
    if k == 'fixed_dict':
        return dict(out, value=a), 'f', [a, a]
    if k == 'lambda':
        return dict(out, value='lambda x: 2*x'), 'd', [None, None]
    return dict(out, value='lambda x: 3*x', derived=False), '', [None, None]


NAMES = ['omegabh2', 'H0', 'ns', 'tau', 'logA', 'As', 'x', 'y_1']
LIKES = ['planck_lowl', 'bao.sdss', 'sn']


@st.composite
def infos(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=7, unique=True))
    c = dict(params=[[n] + list(draw(params(n))) for n in names], prior=draw(st.sampled_from([None, {}, {'SZ': 'lambda a: a'}, {'p_1': 'f', 'q': 'g'}])),
             likes=draw(st.lists(st.sampled_from(LIKES), min_size=0, max_size=3, unique=True)), label=draw(st.sampled_from([None, 'my run', ''])),
             sampler=draw(st.sampled_from([None, 'mcmc', 'polychord'])), post=None)
    if draw(st.booleans()):
        post = dict(remove={}, add={})
        if draw(st.booleans()):
            post['skip'] = draw(st.sampled_from([0.3, 100, 0]))
        gone = [n for n in names if draw(st.integers(0, 3)) == 0][:len(names) - 1]
        if gone:
            post['remove']['params'] = gone if draw(st.booleans()) else {n: None for n in gone}
        if c['likes'] and draw(st.booleans()):
            post['remove']['likelihood'] = c['likes'][:1] if draw(st.booleans()) else c['likes'][0]
        if c['prior'] and draw(st.booleans()):
            post['remove']['prior'] = [sorted(c['prior'])[0]]
        new = [['new_d', None if draw(st.booleans()) else {'latex': 'D'}, 'd', [None, None]]] if draw(st.booleans()) else []
        c['new'] = new
        c['reprior'] = draw(st.booleans())
        if draw(st.booleans()):
            post['add']['likelihood'] = {'extra': None}
        if draw(st.booleans()):
            post['add']['prior'] = {'extra_prior': 'lambda x: x'}
        c['post'] = post
    return c


def build(c):
    """-> info, expected parameters [(name, kind, range, latex, renames)] in order, expected extra derived"""
    par = {p[0]: copy.deepcopy(p[1]) for p in c['params']}
    info = dict(params=par, likelihood={n: None for n in c['likes']})
    if c['prior'] is not None:
        info['prior'] = dict(c['prior'])
    if c['label'] is not None:
        info['label'] = c['label']
    if c['sampler']:
        info['sampler'] = {c['sampler']: {'x': 1}}
    want = [list(p) for p in c['params']]
    likes, priors = list(c['likes']), ['0'] + list(c['prior'] or [])
    if c['post']:
        post = copy.deepcopy(c['post'])
        rem = post['remove']
        want = [p for p in want if p[0] not in (rem.get('params') or [])]
        if rem.get('likelihood'):
            likes.remove(rem['likelihood'] if isinstance(rem['likelihood'], str) else rem['likelihood'][0])
        for q in rem.get('prior', []):
            priors.remove(q)
        add = {}
        for n, i, k, r in c['new']:
            add[n] = i
            want.append([n, i, k, r])
        if c['reprior']:
            # new range for a sampled parameter
            for p in want:
                if p[2] == 's' and isinstance(p[1]['prior'], (list, dict)):
                    add[p[0]] = {'prior': {'min': -7., 'max': 8.}}
                    p[1] = dict(p[1], prior=add[p[0]]['prior'])
                    p[3] = [-7., 8.]
                    break
        if add:
            post['add']['params'] = add
        likes += list(post['add'].get('likelihood', []))
        priors += list(post['add'].get('prior', []))
        info['post'] = post
    extra = ['minuslogprior'] + ['minuslogprior__' + p for p in priors] + ['chi2'] + ['chi2__' + n for n in likes]
    return info, want, extra


def latex(p):
    return (p[1].get('latex', p[0]) if isinstance(p[1], dict) else p[0])


def renames(p):
    r = (p[1] or {}).get('renames') or []
    return [r] if isinstance(r, str) else list(r)


def nontrivial(c, t):
    t.nontrivial(bool(c['post']) or any(isinstance(p[1], dict) and ('dist' in (p[1].get('prior') or {}) or 'min' in p[1]) for p in c['params']))


@case(infos(), quick=500)
def info_dictionaries(c, t):
    info, want, extra = build(c)
    nontrivial(c, t)
    keep = copy.deepcopy(info)
    for rep in range(2):
        got = ci.get_info_params(info)
        equal(list(got), [p[0] for p in want] + extra, 'parameters')
        for p in want:
            i = got[p[0]]
            equal(bool(ci.is_sampled_param(i)), p[2] == 's', p[0] + ' sampled')
            equal(bool(ci.is_derived_param(i)), p[2] == 'd', p[0] + ' derived')
            equal(bool(ci.is_fixed_param(i)), p[2] == 'f' or isinstance(i, dict) and isinstance(i.get('value'), str), p[0] + ' fixed')
            r = ci.get_range(i)
            for u, v in zip(r, p[3]):
                if v is None:
                    equal(u, None, 'range of %s %r' % (p[0], p[1]))
                else:
                    close(u, v, rtol=1e-12, atol=1e-12, what='range of %s %r' % (p[0], p[1]))
        for n in extra:
            assert ci.is_derived_param(got[n]) and not ci.is_sampled_param(got[n]), n + ' is derived'
            equal(tuple(ci.get_range(got[n])), (None, None), 'range of ' + n)
        assert info == keep, 'info changed by reading it: %r, was %r' % (info, keep)
    equal(ci.get_sampler_type(info), 'nested' if c['sampler'] == 'polychord' else 'mcmc', 'sampler')
    equal(ci.get_sample_label(info), c['label'], 'label')
    equal(ci.get_burn_removed(info), (c['post'] or {}).get('skip', 0), 'burn in already removed')


class Collection:
    def __init__(self, data):
        self.data = data

    def __getitem__(self, x):
        return self.data[x]


@case(st.tuples(infos(), seeds, st.integers(1, 3), st.sampled_from([0, 0.3, 5]), st.booleans()), quick=250, shards=2)
def collections(c, t):
    """samples from in-memory collections"""
    spec, seed, nchain, ignore, funcs = c
    info, want, extra = build(spec)
    if not [p for p in want if p[2] in 'sd' and p[2]]:
        return
    nontrivial(spec, t)
    if funcs:
        for p in list(info['params']):
            i = info['params'][p]
            if isinstance(i, dict) and isinstance(i.get('value'), str):
                i['value'] = ev
    r = np.random.RandomState(seed)
    cols = [p[0] for p in want if p[2] in ('s', 'd')] + extra
    cols = [cols[i] for i in r.permutation(len(cols))]
    data = []
    for _ in range(nchain):
        n = r.randint(20, 40)
        d = pd.DataFrame(r.normal(size=(n, len(cols))), columns=cols)
        d.insert(0, 'minuslogpost', r.gamma(2, 2, size=n))
        d.insert(0, 'weight', r.randint(1, 5, size=n).astype(float))
        data.append(d)
    keep = copy.deepcopy(info) if not funcs else None
    colls = [Collection(d) for d in data]
    if ignore and spec['sampler'] == 'polychord':
        assert raises(MCSamplesFromCobaya, info, colls, ignore_rows=ignore), 'burn in removed from nested samples'
        return
    for rep in range(2):
        s = MCSamplesFromCobaya(info, colls[0] if nchain == 1 else colls, ignore_rows=ignore, name_tag='tag')
        equal(s.paramNames.list(), cols, 'names')
        skip = [int(round(len(d) * ignore)) if ignore < 1 else ignore for d in data]
        used = [d.iloc[k:] for d, k in zip(data, skip)]
        if all(abs(len(d) * ignore - int(len(d) * ignore) - 0.5) > 0.51 for d in data) or ignore == 0 or ignore >= 1:
            s.makeSingle() if s.samples is None else None
            close(s.samples, np.vstack([d[cols].values for d in used]), what='samples')
            close(s.weights, np.concatenate([d['weight'].values for d in used]), what='weights')
            close(s.loglikes, np.concatenate([d['minuslogpost'].values for d in used]), what='loglikes')
        by = {p[0]: p for p in want}
        for n in cols:
            par = s.paramNames.parWithName(n)
            equal(par.isDerived, n not in by or by[n][2] == 'd', 'derived flag of ' + n)
            if n in by:
                equal(par.label, latex(by[n]), 'label of ' + n)
                equal(sorted(par.renames), sorted(renames(by[n])), 'renames of ' + n)
        for p in want:
            got = s.ranges.getLower(p[0]), s.ranges.getUpper(p[0])
            for u, v in zip(got, p[3]):
                equal(u is None, v is None, 'range of %s: %s' % (p[0], got))
                if v is not None:
                    close(u, v, rtol=1e-12, atol=1e-12, what='range of ' + p[0])
            if p[2] == 'f':
                close(s.ranges.fixedValue(p[0]), p[3][0], what='fixed value')
        equal(s.sampler, 'nested' if spec['sampler'] == 'polychord' else 'mcmc', 'sampler')
        equal(s.name_tag, 'tag', 'name tag')
        equal(s.label or None, spec['label'] or None, 'label')
        if not funcs:
            assert info == keep, 'info changed'
    bad = Collection(data[0].rename(columns={cols[0]: 'other_name'}))
    assert raises(MCSamplesFromCobaya, info, bad), 'parameters differing from the info'
    if nchain > 1 and len(cols) > 1:
        swapped = data[0][list(data[0].columns[:2]) + cols[::-1]]
        assert raises(MCSamplesFromCobaya, info, [Collection(swapped)] + colls[1:]), 'collections with different columns'


@case(st.tuples(infos(), seeds, st.sampled_from(['root.updated', 'root__full', 'dir/updated', 'dir/full']), st.integers(1, 2), st.booleans()), quick=200, shards=2)
def chain_files(c, t):
    """chains in text files next to the yaml information"""
    spec, seed, where, nchain, bom = c
    info, want, extra = build(spec)
    nontrivial(spec, t)
    d = t.dir()
    text = yaml.dump(info, sort_keys=False, default_flow_style=None)
    if where == 'root.updated':
        root, y = d + '/run', d + '/run.updated.yaml'
    elif where == 'root__full':
        root, y = d + '/run', d + '/run__full.yaml'
    else:
        root, y = d + '/', d + '/' + where.split('/')[1] + '.yaml'
    with open(y, 'w', encoding='utf-8-sig' if bom else 'utf-8') as f:
        f.write(text)
    equal(ci.cobaya_params_file(root), y, 'information file')
    cols = [p[0] for p in want if p[2] == 's'] + [p[0] for p in want if p[2] == 'd'] + extra
    pn = ParamNames(y)
    equal(pn.list(), cols, 'names, sampled first')
    by = {p[0]: p for p in want}
    for n in cols:
        par = pn.parWithName(n)
        equal(par.isDerived, n not in by or by[n][2] == 'd', 'derived flag of ' + n)
        if n in by:
            equal(par.label, latex(by[n]), 'label of ' + n)
            equal(sorted(par.renames), sorted(renames(by[n])), 'renames of ' + n)
    b = ParamBounds(y)
    for p in want:
        got = b.getLower(p[0]), b.getUpper(p[0])
        for u, v in zip(got, p[3]):
            equal(u is None, v is None, 'range of %s: %s' % (p[0], got))
            if v is not None:
                close(u, v, rtol=1e-12, atol=1e-12, what='range of ' + p[0])
        equal(p[0] in b.fixedValueDict(), p[2] == 'f', 'fixed ' + p[0])
    if where.startswith('dir'):
        return
    r = np.random.RandomState(seed)
    chains = []
    for i in range(nchain):
        x = np.hstack([r.randint(1, 4, size=(30, 1)), r.gamma(2, 2, size=(30, 1)), r.normal(size=(30, len(cols)))])
        np.savetxt(root + '.%d.txt' % (i + 1), x, header='weight minuslogpost ' + ' '.join(cols))
        chains.append(x)
    skipped = bool((spec['post'] or {}).get('skip'))
    s = loadMCSamples(root, settings={'ignore_rows': 0.5}, no_cache=True)
    equal(s.paramNames.list(), cols, 'names')
    keep = [x if skipped else x[15:] for x in chains]
    if not len(cols):
        return
    close(s.samples, np.vstack(keep)[:, 2:], rtol=1e-9, what='rows (burn in %s)' % ('already removed' if skipped else 'to remove'))
    close(s.weights, np.vstack(keep)[:, 0], what='weights')
    equal(s.sampler, 'nested' if spec['sampler'] == 'polychord' else 'mcmc', 'sampler')
    equal(s.label or None, spec['label'] or None, 'label')
    for p in want:
        got = s.ranges.getLower(p[0]), s.ranges.getUpper(p[0])
        for u, v in zip(got, p[3]):
            equal(u is None, v is None, 'range of %s: %s' % (p[0], got))
    if skipped:
        equal(s.properties.bool('burn_removed', False), True, 'burn_removed property')


nice = st.text(alphabet='abcxyz_ -', min_size=1, max_size=6).map(str.strip).filter(lambda s: s and s[0].isalpha() and s not in ('y', 'n'))
scalars = st.one_of(st.none(), st.booleans(), st.integers(-10 ** 9, 10 ** 9), st.floats(allow_nan=False), nice)
data = st.recursive(scalars, lambda ch: st.one_of(st.lists(ch, max_size=3), st.dictionaries(nice, ch, max_size=3)), max_leaves=8)


@case(st.dictionaries(nice, data, max_size=4), quick=500)
def yaml_round_trip(c, t):
    t.nontrivial(any(isinstance(v, (dict, list, float)) for v in c.values()))
    for flow in (None, True, False):
        text = yaml.dump(c, default_flow_style=flow, allow_unicode=True)
        equal(yaml_tools.yaml_load(text), c, 'data read from %r' % text)
    f = t.dir() + '/x.yaml'
    write(f, text)
    equal(yaml_tools.yaml_load_file(f), c, 'data read from file')


@case(st.tuples(st.sampled_from(['', '-', '+']), st.integers(0, 9999), st.sampled_from(['', '.', '.5', '.025']), st.sampled_from(['', 'e', 'E']),
                st.sampled_from(['', '-', '+']), st.integers(0, 30), st.sampled_from(['', 'x', ' y'])), quick=500)
def yaml_numbers(c, t):
    """numbers are read as numbers with or without decimal point and exponent sign; other text stays text"""
    sign, a, frac, e, es, ex, tail = c
    text = sign + str(a) + frac + (e + es + str(ex) if e else '') + tail
    t.nontrivial(bool(e))
    got = yaml_tools.yaml_load('v: ' + text + '\nw: [%s, !!python/name:os.system ]\n' % text)
    equal(got['w'][1], None, 'python object in yaml')
    for v in (got['v'], got['w'][0]):
        if tail:
            equal(v, text, 'text')
        elif not frac and not e:
            equal((type(v), v), (int, int(text)), 'integer %s' % text)
        else:
            assert isinstance(v, float), '%s read as %r' % (text, v)
            close(v, float(text), rtol=1e-15, what=text)


@case(st.tuples(st.lists(st.sampled_from(['a: 1', 'b: [1, 2]', 'c:', '  d: 4', '# comment', '']), max_size=8),
                st.sampled_from(['x: [1, 2', 'x: "abc', 'x = 3: 4: 5', '\ty: 3', 'x: 1: 2', '}', "z: 'k"]), st.lists(st.sampled_from(['k: 1', '', 'm: {n: 2}']), max_size=4)),
      quick=300)
def yaml_errors(c, t):
    pre, bad, post = c
    text = '\n'.join(pre + [bad] + post)
    try:
        yaml.load(text, yaml.Loader)
        return
    except yaml.YAMLError as e:
        mark = e.problem_mark
    t.nontrivial()
    f = t.dir() + '/bad.yaml'
    write(f, text)
    try:
        yaml_tools.yaml_load_file(f)
    except yaml_tools.InputSyntaxError as e:
        msg = str(e)
    else:
        raise AssertionError('invalid yaml accepted')
    assert 'line %d, column %d' % (mark.line + 1, mark.column + 1) in msg and f in msg, 'position in message %r' % msg
    assert '|' + text.split('\n')[mark.line] + ' ' in msg, 'offending line in message %r' % msg
