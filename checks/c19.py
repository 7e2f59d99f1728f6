"""Best-fit (.minimum, .bestfit, .pars) and convergence files, and the values taken from them."""
import contextlib
import io
import os
import runpy
import sys
import numpy as np
from hypothesis import strategies as st
from vlib import case, close, equal, raises, read, write
from gen import seeds, name_list
from getdist import IniFile, MCSamples, loadMCSamples, types
from getdist.types import BestFit, ConvergeStats, NumberFormatter, ResultTable

RULE = ('best-fit files in the layout written by the sampler, with any number of varying, fixed and derived parameters and likelihoods, with or without weight and chi-sq lines; '
        'non-trivial: more than one kind of parameter, or likelihood contributions')
ASSUMPTIONS = ['names shorter than the 22 characters of the name column', 'at most one "=" in a likelihood name']

PY = '/repo/python/'
LABELS = [r'\Omega_b h^2', 'H_0', r'A_{\rm s} 10^9', 'x', r'\ln(10^{10} A_s)', r'a = b: c', '']
KINDS = ['CMB', 'BAO', 'SN', '', 'HST prior']
LIKES = ['plik_lite', 'lowl 2018', 'BAO: DR12', 'JLA March 14', 'x']
values = st.one_of(st.integers(-99999, 99999).map(lambda i: i / 1000.), st.floats(-1e9, 1e9, allow_nan=False).map(lambda x: x if abs(x) > 1e-60 else 0.), st.sampled_from([0., -0., 1e-30, -2.5e20, 1.]))


@st.composite
def fits(draw, min_vary=1):
    names = draw(name_list(min_vary, 9))
    n = draw(st.integers(min_vary, len(names)))
    m = draw(st.integers(n, len(names)))
    kinds = ['v'] * n + ['f'] * (m - n) + ['d'] * (len(names) - m)
    likes = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.sampled_from(LIKES), st.booleans(), st.integers(-10 ** 5, 10 ** 6)), max_size=5))
    return dict(params=[[nm, k, draw(values), draw(st.sampled_from(LABELS))] for nm, k in zip(names, kinds)], likes=[list(x) for x in likes],
                like=draw(values), weight=draw(st.sampled_from([None, None, 3., 0.25])), chi2=draw(st.booleans()), seed=draw(seeds), end=draw(st.booleans()))


def text(c):
    """file as written by the Fortran code (order of varying and fixed numbers mixed)"""
    r = np.random.RandomState(c['seed'])
    out = []
    if c['weight'] is not None:
        out.append('  weight    =    %.16g' % c['weight'])
    out.append(' -log(Like) =    %.16g' % c['like'])
    if c['chi2']:
        out.append('  chi-sq    =    %.16g' % (2 * c['like']))
    out.append(' ')
    nin = sum(p[1] != 'd' for p in c['params'])
    num = list(sorted(r.permutation(nin)[:sum(p[1] == 'v' for p in c['params'])]))
    num += [i for i in range(nin) if i not in num] + list(range(nin, len(c['params'])))
    for kind in 'vfd':
        for p, i in zip(c['params'], num):
            if p[1] == kind:
                out.append('%5i%15.7E   %-22s%s' % (i + 1, p[2], p[0], p[3]))
        if kind != 'd':
            out.append(' ')
    if c['likes'] or c['end']:
        out.append(' ')
        out.append(' -log(Like)     chi-sq   data')
        for kind, name, tag, v in c['likes']:
            out.append('%11.3f%11.3f   %s: %s%s' % (v / 2000., v / 1000., kind, 'tag1 = ' if tag else '', name))
    return '\n'.join(out) + '\n', [i + 1 for i in num]


def rounded(v):
    return float('%.7E' % v)


def nontrivial(c, t):
    t.nontrivial(len(set(p[1] for p in c['params'])) > 1 or bool(c['likes']))


@case(st.tuples(fits(), st.booleans(), st.booleans()), quick=800)
def best_fit_files(c, t):
    spec, fixed, relabel = c
    nontrivial(spec, t)
    txt, num = text(spec)
    f = write(t.dir() + '/r.minimum', txt)
    pn = None
    if relabel:
        pn = write(t.dir() + '/r.paramnames', ''.join('%s%s %s\n' % (p[0], '*' if p[1] == 'd' else '', 'L' + p[0]) for p in spec['params'][::-1]))
    b = BestFit(f, setParamNameFile=pn, want_fixed=fixed)
    want = [(p, i) for p, i in zip(spec['params'], num) if fixed or p[1] != 'f']
    equal([p.name for p in b.names], [p[0] for p, i in want], 'parameters')
    close(b.logLike, spec['like'], rtol=1e-14, what='-log(Like)')
    if spec['weight'] is not None:
        close(b.weight, spec['weight'], what='weight')
    for par, (p, i) in zip(b.names, want):
        close(par.best_fit, rounded(p[2]), rtol=1e-14, what='value of ' + p[0])
        equal(par.label, ('L' + p[0]) if relabel else p[3].strip(), 'label of ' + p[0])
        equal(par.number, i, 'number of ' + p[0])
        if p[1] != 'f':
            equal(par.isDerived, p[1] == 'd', 'derived flag of ' + p[0])
        equal(bool(par.isFixed), p[1] == 'f', 'fixed flag of ' + p[0])
    d = b.getParamDict()
    for p, i in want:
        close(d[p[0]], rounded(p[2]), rtol=1e-14, what='dictionary ' + p[0])
    equal(set(d) - {'weight', 'loglike'}, {p[0] for p, i in want} - {'weight', 'loglike'}, 'keys')
    close(d['loglike'], spec['like'], rtol=1e-14, what='loglike')
    d = b.getParamDict(include_derived=False)
    equal({p[0] for p, i in want if p[1] == 'd'} & set(d), set(), 'derived parameters left out')
    assert {p[0] for p, i in want if p[1] == 'v'} <= set(d), 'varying parameters in dictionary'
    equal(len(b.chiSquareds), len(spec['likes']), 'number of likelihoods')
    for (kind, chi), (k, name, tag, v) in zip(b.chiSquareds, spec['likes']):
        equal(kind, k, 'kind of ' + name)
        equal((chi.tag, chi.name), ('tag1' if tag else None, name), 'likelihood name')
        close(chi.chisq, float('%.3f' % (v / 1000.)), what='chi squared of ' + name)
    got = b.sortedChiSquareds()
    equal([k for k, v in got], sorted(set(x[0] for x in spec['likes'])), 'kinds in order')
    for k, v in got:
        equal([(x.name, x.chisq) for x in v], [(x[1], float('%.3f' % (x[3] / 1000.))) for x in spec['likes'] if x[0] == k], 'likelihoods of ' + k)
    for k in KINDS:
        for n in LIKES:
            same = [x for x in spec['likes'] if x[0] == k and x[1] == n]
            r = b.chiSquareForKindName(k, n)
            if same:
                close(r, float('%.3f' % (same[0][3] / 1000.)), what='chi squared for %s %s' % (k, n))
            else:
                equal(r, None, 'chi squared for missing %s %s' % (k, n))
    fmt = NumberFormatter()
    tab = ResultTable(1, [b]).tableTex()
    for par in b.names:
        class F:
            numberFormatter = fmt
        equal(BestFit.texValues(b, F, par), [fmt.formatNumber(par.best_fit)], 'table value')
        assert fmt.formatNumber(par.best_fit) in tab, 'value of %s missing in table' % par.name
    bad = write(t.dir() + '/bad.minimum', 'x' + txt.lstrip())
    assert raises(BestFit, bad), 'file with another format accepted'


@case(st.tuples(fits(min_vary=2), st.booleans(), st.booleans(), st.sampled_from(['extra', 'same', 'missing'])), quick=200, shards=2)
def best_fit_of_samples(c, t):
    """best fits of samples loaded from the same root"""
    spec, derived, fixed, which = c
    nontrivial(spec, t)
    d = t.dir()
    r = np.random.RandomState(spec['seed'])
    root = os.path.join(d, 'run')
    varying = [p for p in spec['params'] if p[1] == 'v']
    cols = varying + [p for p in spec['params'] if p[1] == 'd']
    n = 60
    data = np.hstack([np.ones((n, 1)), r.gamma(2, 2, size=(n, 1)), r.normal(size=(n, len(cols)))])
    names = [p[0] for p in cols]
    if which == 'extra':
        names.append('not_in_fit')
        data = np.hstack([data, r.normal(size=(n, 1))])
    np.savetxt(root + '_1.txt', data)
    write(root + '.paramnames', ''.join('%s%s lab%s\n' % (nm, '*' if i >= len(varying) else '', nm) for i, nm in enumerate(names)))
    fixedpars = [p for p in spec['params'] if p[1] == 'f']
    write(root + '.ranges', ''.join('%s %.10g %.10g\n' % (p[0], p[2], p[2]) for p in fixedpars))
    s = loadMCSamples(root, settings={'ignore_rows': 0})
    if which == 'missing':
        assert raises(s.getBestFit), 'best fit without a file'
        assert raises(s.getParamBestFitDict), 'best fit without a file'
        assert raises(s.getBestFit, max_posterior=False), 'best fit without a file'
        return
    txt, _ = text(spec)
    other = dict(spec, like=spec['like'] + 17, params=[[p[0], p[1], p[2] + 1, p[3]] for p in spec['params']])
    write(root + '.minimum', txt)
    write(root + '.bestfit', text(other)[0])
    for use, post in ((spec, True), (other, False)):
        b = s.getBestFit(max_posterior=post)
        close(b.logLike, use['like'], rtol=1e-14, atol=1e-300, what='-log(Like)')
        equal(b.max_posterior, post, 'posterior flag')
        got = s.getParamBestFitDict(want_derived=derived, want_fixed=fixed, max_posterior=post)
        for p in use['params']:
            want = p[1] == 'v' or p[1] == 'd' and derived or p[1] == 'f' and fixed
            equal(p[0] in got, want, '%s in best fit dictionary' % p[0])
            if want:
                # fixed values come from the ranges of the chain
                close(got[p[0]], rounded(p[2]) if p[1] != 'f' else spec['params'][[q[0] for q in spec['params']].index(p[0])][2], rtol=1e-9, atol=1e-300, what='best fit ' + p[0])
        close(got['loglike'], use['like'], rtol=1e-14, atol=1e-300, what='loglike')
    plain = s.getMargeStats()
    before = [(p.name, p.mean, p.isDerived) for p in plain.names]
    m = s.getMargeStats(include_bestfit=True)
    equal([p.name for p in m.names], [p[0] for p in cols], 'parameters with best fit')
    close(m.logLike, spec['like'], rtol=1e-14, atol=1e-300, what='-log(Like)')
    for p in cols:
        par = m.parWithName(p[0])
        close(par.best_fit, rounded(p[2]), what='best fit of ' + p[0])
        equal(par.isDerived, p[1] == 'd', 'derived parameter')
        close(par.mean, np.mean(data[:, 2 + names.index(p[0])]), rtol=1e-9, atol=1e-9, what='mean')
    again = s.getMargeStats()
    equal([(p.name, p.mean, p.isDerived) for p in again.names], before, 'statistics after including the best fit')
    equal(s.paramNames.list(), names, 'parameters of the samples')
    if n >= 60:
        table = ResultTable(1, [m]).tableTex()
        for p in cols:
            par = m.parWithName(p[0])

            class F:
                numberFormatter = NumberFormatter()
                noConstraint = '---'
            val = m.texValues(F, par, limit=1)[1]
            assert val in table, 'best fit of %s not in table' % p[0]
            v = float(val.replace(' ', '').replace(r'\cdot10^{', 'e').replace(r'\times10^{', 'e').replace('}', ''))
            width = par.limits[0].upper - par.limits[0].lower
            assert abs(v - rounded(p[2])) <= 0.1 * width + 0.006 * abs(p[2]), 'best fit of %s in table: %s, is %r' % (p[0], val, p[2])


@case(st.tuples(seeds, name_list(1, 4), st.integers(1, 4), st.integers(12, 120), st.booleans(), st.sampled_from([[], ['CorrSteps'], ['MeanVar', 'CorrLengths', 'CorrSteps', 'SplitTest']]),
                st.sampled_from([None, 1, 5]), st.booleans()), quick=150, shards=2)
def convergence_files(c, t):
    """convergence files load as they were written"""
    seed, names, nchain, n, corr, what, thin, empty = c
    r = np.random.RandomState(seed)
    chains = []
    for _ in range(nchain):
        x = r.normal(size=(n, len(names)))
        if corr:
            x = np.cumsum(x, axis=0) * 0.3
        chains.append(x)
    sets = {'ignore_rows': 0}
    if thin:
        sets['corr_length_thin'] = thin
    labels = ['' if empty and i == 0 else 'lab %s' % nm for i, nm in enumerate(names)]
    weights = [r.randint(1, 4, size=n).astype(float) for _ in range(nchain)]
    s = MCSamples(samples=chains, weights=weights, names=names, labels=labels, settings=sets)
    f = t.dir() + '/x.converge'
    s.getConvergeTests(0.95, writeDataToFile=True, what=what + ['GelmanRubin'], filename=f)
    t.nontrivial(nchain > 1 and bool(what))
    got = ConvergeStats(f)
    D = s.getGelmanRubinEigenvalues() if nchain > 1 else None
    if D is None:
        equal(got.R_eigs, [], 'no eigenvalues')
    else:
        equal([float(x) for x in got.R_eigs], [float('%.5f' % v) for v in D], 'eigenvalues')
        equal(float(got.worstR()), float('%.5f' % D[-1]), 'worst')
        close(max(float(x) for x in got.R_eigs), float(got.worstR()), what='worst eigenvalue is the largest')
    if 'CorrSteps' in what and thin:
        # direct sums over thinned rows
        if hasattr(got, 'auto_correlations') and got.auto_correlation_steps:
            equal(got.auto_correlation_pars, names, 'parameters')
            equal(got.auto_correlation_steps, [thin * (i + 1) for i in range(len(got.auto_correlation_steps))], 'steps')
            means = s.getMeans()
            var = s.getVars()
            cs = np.zeros((len(names), len(got.auto_correlation_steps)))
            for x, w, one in zip(chains, weights, s.getSeparateChains()):
                ix = one.thin_indices(thin)
                diff = x[ix] - np.average(x, axis=0, weights=w)
                for o in range(1, cs.shape[1] + 1):
                    cs[:, o - 1] += [diff[o:, j].dot(diff[:-o, j]) / (len(ix) - o) for j in range(len(names))]
            cs = (cs.T / var / nchain).T
            close(np.array(got.auto_correlations), cs, rtol=0, atol=6e-4, what='auto correlations')


def run_script(name, args):
    out = io.StringIO()
    old = sys.argv
    sys.argv = [PY + name] + list(args)
    try:
        with contextlib.redirect_stdout(out):
            try:
                runpy.run_path(PY + name, run_name='__main__')
            except SystemExit:
                pass
    finally:
        sys.argv = old
    return out.getvalue()


CAMB = {'ombh2': 'omegabh2', 'omch2': 'omegach2', 'omnuh2': 'omeganuh2', 'hubble': 'H0', 'w': 'w', 'helium_fraction': 'yheused', 'scalar_spectral_index(1)': 'ns',
        'scalar_nrun(1)': 'nrun', 'initial_ratio(1)': 'r', 're_optical_depth': 'tau', 're_delta_redshift': 'deltazrei'}


@case(st.tuples(fits(), seeds, st.integers(1, 3), st.booleans(), st.booleans()), quick=150)
def scripts(c, t):
    """extractBestFitParams, chainPeek and extractBestFitCAMB"""
    spec, seed, index, give, nonlin = c
    nontrivial(spec, t)
    d = t.dir()
    spec = dict(spec, weight=None, chi2=True)
    r = np.random.RandomState(seed)
    f = write(d + '/r.minimum', text(spec)[0])
    got = run_script('extractBestFitParams.py', [f]).split('\n')
    want = [p for p in spec['params'] if p[1] == 'v']
    equal(len([x for x in got if x.strip()]), len(want), 'number of values')
    for line, p in zip(got, want):
        k, v = line.split('=', 1)
        equal(k.strip(), 'param[%s]' % p[0], 'parameter')
        close(float(v), rounded(p[2]), what='value')
    write(d + '/c.paramnames', ''.join('%s %s\n' % (p[0], p[0]) for p in spec['params']))
    chains = [r.normal(size=(5, 2 + len(spec['params']))) for _ in range(3)]
    for i, x in enumerate(chains):
        np.savetxt(d + '/c_%i.txt' % (i + 1), x)
    j = r.randint(len(spec['params']))
    out = run_script('chainPeek.py', [d + '/c', spec['params'][j][0]] + ([str(index)] if give else []))
    close(np.array([float(x) for x in out.replace('[', ' ').replace(']', ' ').split()]), chains[index - 1 if give else 0][:, 2 + j], rtol=1e-6, atol=1e-7, what='values of the chain')
    keys = sorted(set(CAMB.values()) | {'A', 'nnu'})
    vals = {k: round(r.uniform(0.1, 3), 6) for k in keys}
    order = [keys[i] for i in r.permutation(len(keys))]
    kinds = sorted(r.choice(list('vfd'), size=len(keys)), key='vfd'.index)
    cs = dict(spec, params=[[k, kd, vals[k], k] for k, kd in zip(order, kinds)])
    write(d + '/b.minimum', text(cs)[0])
    write(d + '/b.paramnames', ''.join('%s %s\n' % (k, k) for k in order))
    write(d + '/b.inputparams', 'use_nonlinear_lensing = %s\n' % ('T' if nonlin else 'F'))
    run_script('extractBestFitCAMB.py', [d + '/b', d + '/out.ini'])
    ini = IniFile()
    ini.params = {}
    for line in read(d + '/out.ini').split('\n'):
        if '=' in line and not line.startswith('#'):
            k, v = line.split('=', 1)
            ini.params[k.strip()] = v.strip()
    for k, n in CAMB.items():
        close(float(ini.params[k]), rounded(vals[n]), what=k)
    close(float(ini.params['scalar_amp(1)']), rounded(vals['A']) * 1e-9, rtol=1e-12, what='amplitude')
    close(float(ini.params['massless_neutrinos']), rounded(vals['nnu']) - 3.046 / 3, rtol=1e-12, atol=1e-12, what='massless neutrinos')
    close([float(ini.params[k]) for k in ('temp_cmb', 'CMB_outputscale', 'massive_neutrinos', 'nu_mass_degeneracies')], [2.7255, 2.7255e6 ** 2, 1, 3.046 / 3], rtol=1e-12, what='temperature and neutrinos')
    equal([ini.params['re_use_optical_depth'], ini.params['share_delta_neff']], ['T', 'F'], 'flags')
    assert 'DEFAULT(params.ini)' in read(d + '/out.ini'), 'default parameters not used'
    close(float(ini.params['tensor_spectral_index(1)']), -rounded(vals['r']) / 8, rtol=1e-12, what='tensor tilt')
    equal(ini.params.get('do_nonlinear'), '3' if nonlin else None, 'nonlinear lensing')
