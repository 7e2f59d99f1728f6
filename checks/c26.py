"""Supernova, CamSpec and DES likelihoods."""
import contextlib
import io
import math
import os
import sys
import types
import numpy as np
from hypothesis import strategies as st
import matplotlib
matplotlib.use('Agg')
import scipy.special
from scipy.interpolate import CubicSpline
from vlib import case, close, equal, raises, write
import gen

try:
    import camb  # noqa
except ImportError:  # only needed for theory calculations, which get stand-in results here
    _camb = types.ModuleType('camb')
    for _name in ('model', 'correlations'):
        setattr(_camb, _name, types.ModuleType('camb.' + _name))
        sys.modules['camb.' + _name] = getattr(_camb, _name)
    sys.modules['camb'] = _camb

from CMBlikes import ClsArray
from planck.SN import SN_likelihood
from planck import CMB_CamSpec
from planck.CMB_CamSpec import CamSpec_likelihood
from planck import DES
from planck.DES import DES_like

RULE = 'generated data files, covariances, cuts and nuisance parameters; non-trivial: several data points with correlated errors, or data cut'
ASSUMPTIONS = ['camb is not installed: DES correlation functions are computed from stand-in background and power spectrum functions', 'plik needs the clik package and is not covered']


def quiet(f, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kwargs)


def spd(rng, n, diag=.3):
    A = rng.normal(size=(n, n))
    return A @ A.T / n * .05 + diag * np.diag(rng.uniform(.1, 1, n))


# ---------------------------------------------------------------- supernovae

COVS = ['mag', 'stretch', 'colour', 'mag_stretch', 'mag_colour', 'stretch_colour']


@st.composite
def supernovae(draw):
    return dict(seed=draw(gen.seeds), n=draw(st.integers(2, 10)), covs=sorted(draw(st.sets(st.sampled_from(COVS), min_size=1))), two=draw(st.booleans()),
                cut=draw(st.sampled_from([None, 10., 9.5, 5., 20.])), third=draw(st.booleans()), pecz=draw(st.sampled_from([None, 0, .001, .01])),
                fmt=draw(st.sampled_from(['n', 'flat', 'matrix'])), extra=draw(st.booleans()), blank=draw(st.booleans()),
                ab=draw(st.lists(st.tuples(st.sampled_from([0., .14, .1325, .2, -.1]), st.sampled_from([0., 3.1, 2.96, 1.])), min_size=1, max_size=3)),
                steps=draw(st.integers(1, 3)), pre=draw(st.booleans()), names=draw(st.sampled_from([['alpha', 'beta'], ['beta', 'alpha'], ['alpha_JLA', 'b']])),
                sub=draw(st.sampled_from(['', 'data/', 'data/Pantheon/'])), override=draw(st.booleans()))


def make_sn(d, folder):
    rng = np.random.default_rng(d['seed'])
    n = d['n']
    v = dict(zcmb=rng.uniform(.01, 1.2, n), dz=rng.uniform(0, .01, n), mb=rng.uniform(15, 25, n), dmb=rng.uniform(.1, .3, n), x1=rng.normal(size=n), dx1=rng.uniform(.1, .5, n),
             color=rng.normal(size=n) * .1, dcolor=rng.uniform(.02, .05, n), cov_m_s=rng.uniform(-1, 1, n) * .005, cov_m_c=rng.uniform(-1, 1, n) * .0005, cov_s_c=rng.uniform(-1, 1, n) * .0005)
    v['zhel'] = v['zcmb'] * rng.uniform(.95, 1.05, n)
    v['3rdvar'] = rng.choice([9.3, 10., 10.7], n)
    v['d3rdvar'] = rng.uniform(.1, .2, n)
    v['set'] = rng.integers(1, 4, n).astype(float)
    cols = ['zcmb', 'zhel', 'dz', 'mb', 'dmb', 'x1', 'dx1', 'color', 'dcolor', '3rdvar', 'd3rdvar', 'cov_m_s', 'cov_m_c', 'cov_s_c', 'set']
    third = d['third'] or d['two']
    if not third:
        cols = [c for c in cols if '3rd' not in c]
        v['3rdvar'] = np.zeros(n)
    if d['extra']:
        cols = [cols[i] for i in rng.permutation(len(cols))] + ['biascor']
        v['biascor'] = rng.normal(size=n)
    lines = ['#name ' + ' '.join(cols)]
    for i in range(n):
        lines.append('SN%d ' % i + ' '.join(repr(float(v[c][i])) for c in cols))
        if d['blank'] and i == n // 2:
            lines.append('')
    write(os.path.join(folder, 'lc.txt'), '\n'.join(lines) + '\n' * (1 + d['blank']))
    C = {}
    ini = ['name = X', 'data_file = %slc.txt' % d['sub'], 'twoscriptmfit = %s' % 'FT'[d['two']]]
    over = {}
    if d['cut'] is not None:
        if d['override']:
            over['scriptmcut'] = d['cut']
        ini.append('scriptmcut = %s' % (7. if d['override'] else d['cut']))
    if d['pecz'] is not None:
        ini.append('pecz = %s' % d['pecz'])
    for c in COVS:
        if c in d['covs']:
            C[c] = spd(rng, n) if c == 'mag' else spd(rng, n) * (.05 if c in ('stretch', 'colour') else .01)
            if '_' in c:
                M = rng.normal(size=(n, n)) * .002
                C[c] = M + M.T
            f = os.path.join(folder, c + '.dat')
            if d['fmt'] == 'matrix':
                np.savetxt(f, C[c], fmt='%.18e')
            else:
                write(f, ('%d\n' % n if d['fmt'] == 'n' else '') + '\n'.join(repr(float(x)) for x in C[c].ravel()) + '\n')
            ini += ['has_%s_covmat = T' % c, '%s_covmat_file = %s%s.dat' % (c, d['sub'], c)]
        else:
            ini.append('has_%s_covmat = F' % c)
    return write(os.path.join(folder, 'sn.dataset'), '\n'.join(ini) + '\n'), over, v, C


def sn_reference(d, v, C, DA, alpha, beta):
    n = d['n']
    z = v['zcmb']
    pecz = .001 if d['pecz'] is None else d['pecz']
    ab = set(C) != {'mag'}
    V = np.zeros((n, n))
    if ab:
        w = [1, alpha, -beta]  # mag + alpha stretch - beta colour
        for name, f in zip(COVS, [w[0] * w[0], w[1] * w[1], w[2] * w[2], 2 * w[0] * w[1], 2 * w[0] * w[2], 2 * w[1] * w[2]]):
            if name in C:
                V += f * C[name]
    else:
        V += C['mag']
        w = [1, 0, 0]
    for i in range(n):
        V[i, i] += v['dmb'][i] ** 2 + (5 / math.log(10) * pecz * (1 + z[i]) / (z[i] * (1 + z[i] / 2))) ** 2
        V[i, i] += (w[1] * v['dx1'][i]) ** 2 + (w[2] * v['dcolor'][i]) ** 2 + 2 * (w[1] * v['cov_m_s'][i] + w[2] * v['cov_m_c'][i] + w[1] * w[2] * v['cov_s_c'][i])
    r = v['mb'] + w[1] * v['x1'] + w[2] * v['color'] - 5 * np.log10((1 + v['zhel']) * (1 + z) * DA)
    cut = 10. if d['cut'] is None else d['cut']
    groups = [np.ones(n)]
    if d['two']:
        lo = (v['3rdvar'] <= cut).astype(float)
        groups = [x for x in (lo, 1 - lo) if x.any()]
    A = np.array(groups).T
    ev = np.linalg.eigvalsh(V)
    if ev[0] < 1e-3 * ev[-1]:
        return None
    # integrate the gaussian over the free magnitude offset of each group
    Vi = np.linalg.inv(V)
    F = A.T @ Vi @ A
    x = A.T @ Vi @ r
    return .5 * (r @ Vi @ r - x @ np.linalg.solve(F, x) + np.log(np.linalg.det(F / (2 * np.pi))))


@case(supernovae(), quick=500, thorough=15000, shards=4)
def supernova_likelihood(d, t):
    folder = t.dir()
    fname, over, v, C = make_sn(d, folder)
    like = quiet(SN_likelihood, fname, over, alpha_beta_names=d['names'], silent=bool(d['seed'] % 2))
    close(like.get_redshifts(), v['zcmb'], what='redshifts')
    equal(like.names, ['SN%d' % i for i in range(d['n'])], 'names')
    rng = np.random.default_rng(d['seed'] + 1)
    t.nontrivial(d['n'] > 2)
    t.label('two offsets', d['two'])
    t.label('only mag covariance', d['covs'] == ['mag'])
    for k, (alpha, beta) in enumerate(list(d['ab']) + list(d['ab'])[:1]):
        DA = rng.uniform(.95, 1.05, d['n']) * 3000 * v['zcmb'] / (1 + v['zcmb']) ** 2
        want = sn_reference(d, v, C, DA, alpha, beta)
        if want is None:
            continue
        got = like.loglike(DA, {d['names'][0]: alpha, d['names'][1]: beta, 'other': 5})
        close(got, want, rtol=1e-6, atol=1e-6, what='-log likelihood for alpha, beta = %s, %s' % (alpha, beta))
        # distances times a constant are absorbed in the offset
        got = like.loglike(DA * 1.7, {d['names'][0]: alpha, d['names'][1]: beta})
        close(got, want, rtol=1e-6, atol=1e-6, what='-log likelihood with scaled distances')


@case(supernovae(), quick=120, thorough=3000, shards=2)
def supernova_marginalized(d, t):
    folder = t.dir()
    fname, over, v, C = make_sn(d, folder)
    opts = dict(marge_steps=d['steps'], step_width_alpha=.01, step_width_beta=.2)
    rng = np.random.default_rng(d['seed'] + 2)
    if rng.random() < .5:
        opts.update(alpha_centre=.12, beta_centre=2.9)
    if rng.random() < .3:
        del opts['step_width_alpha']
    given = dict(opts)
    kw = {} if rng.random() < .7 else dict(alpha_beta_names=None)
    like = quiet(SN_likelihood, fname, over, marginalize=True, marginalize_params=opts, precompute_covmats=d['pre'], **kw)
    equal(opts, given, 'options of the caller')
    da, db = opts.get('step_width_alpha', .003), opts['step_width_beta']
    a0, b0 = opts.get('alpha_centre', .14), opts.get('beta_centre', 3.123)
    for k in range(2):
        DA = rng.uniform(.95, 1.05, d['n']) * 3000 * v['zcmb'] / (1 + v['zcmb']) ** 2
        s = d['steps']
        pts = [sn_reference(d, v, C, DA, a0 + i * da, b0 + j * db) for i in range(-s, s + 1) for j in range(-s, s + 1) if i * i + j * j <= s * s]
        if None in pts:
            return
        t.nontrivial(s > 1)
        pts = np.array(pts)
        want = -np.log(np.sum(np.exp(-(pts - pts.min()))) * da * db) + pts.min()
        close(quiet(like.loglike, DA), want, rtol=1e-6, atol=1e-6, what='marginalized -log likelihood')


# ---------------------------------------------------------------- CamSpec

SPECS = ['100x100', '143x143', '217x217', '143x217', 'TE', 'EE']
TEMPLATES = ['sz143', 'ksz', 'tszxcib', 'cib217', 'dust100', 'dust143', 'dust217', 'dust143x217']
LT = 3010
_tmpl = {}


def templates():
    if not _tmpl:
        rng = np.random.default_rng(5)
        L = np.arange(2, LT + 1)
        for k, name in enumerate(TEMPLATES):
            y = (L / 50.) ** (.2 + .2 * k) * (1 + .1 * np.sin(L / (3. + k)))
            y = np.array([float('%.6g' % x) for x in y])
            _tmpl[name] = (np.concatenate([[0, 0], y]), '\n'.join('%d %r' % (l, float(x)) for l, x in zip(L, y)) + '\n')
    return _tmpl


@st.composite
def camspecs(draw):
    d = dict(seed=draw(gen.seeds), lo=[draw(st.integers(2, 8)) for _ in SPECS], n=[draw(st.integers(1, 9)) for _ in SPECS],
             missing=sorted(draw(st.sets(st.integers(0, 5), max_size=2))), use=draw(st.one_of(st.none(), st.sets(st.integers(0, 5), min_size=1).map(sorted))),
             range=draw(st.sampled_from([None, None, 'all', 'dict', 'arrays'])), rlo=draw(st.integers(2, 9)), rn=draw(st.integers(0, 8)), gap=draw(st.booleans()),
             single=draw(st.booleans()), bits=draw(st.sampled_from([32, 64])), acib=draw(st.booleans()), missing_how=draw(st.sampled_from(['0', 'swap'])), blank=draw(st.booleans()))
    return d


def camspec_files(d, folder):
    rng = np.random.default_rng(d['seed'])
    have = [i for i in range(6) if i not in d['missing']]
    lo, hi = d['lo'], [a + n - 1 for a, n in zip(d['lo'], d['n'])]
    LMAX = 20
    spec = rng.uniform(1, 10, (LMAX + 1, 6))
    np.savetxt(os.path.join(folder, 'hat.txt'), spec, fmt='%.10g')
    spec = np.loadtxt(os.path.join(folder, 'hat.txt'))
    lines = []
    for i, s in enumerate(SPECS):
        if i in have:
            lines.append('%s %d %d' % (s, lo[i], hi[i]))
        else:
            lines.append('%s 0 0' % s if d['missing_how'] == '0' else '%s %d %d' % (s, hi[i] + 1, lo[i]))
    write(os.path.join(folder, 'ranges.txt'), '\n'.join(lines) + '\n' * (1 + 2 * d['blank']))
    pts = [(i, l) for i in have for l in range(lo[i], hi[i] + 1)]
    cov = spd(rng, len(pts), 1.) if pts else np.zeros((0, 0))
    cname = 'cov64.bin' if d['bits'] == 64 else 'cov.bin'
    cov.astype(np.float64 if d['bits'] == 64 else np.float32).tofile(os.path.join(folder, cname))
    cov = cov.astype(np.float64 if d['bits'] == 64 else np.float32).astype(np.float64)
    ini = ['cl_hat_file = hat.txt', 'covmat_cl = ' + ' '.join(SPECS), 'data_ranges = ranges.txt', 'covmat_fiducial = ' + cname]
    for k, (name, (_, text)) in enumerate(templates().items()):
        write(os.path.join(folder, name + '.txt'), text)
        ini.append('%sfile = %s.txt' % (name, name))
    use = have if d['use'] is None else [i for i in have if i in d['use']]
    params = {}
    if d['use'] is not None:
        params['use_cl'] = ' '.join(SPECS[i] for i in d['use'])
    keep = {i: set(range(0, 100)) for i in range(6)}
    a, b = d['rlo'], d['rlo'] + d['rn']
    txt, sel = '%d-%d' % (a, b), set(range(a, b + 1))
    if d['gap']:
        txt, sel = txt + ' %d-%d' % (b + 2, b + 5), sel | set(range(b + 2, b + 6))
    if d['single']:
        txt, sel = txt + ' %d' % (b + 7), sel | {b + 7}
    if d['range'] == 'all':
        params['use_range'] = txt
        keep = {i: sel for i in range(6)}
    elif d['range']:
        who = [i for i in range(6) if rng.random() < .6]
        params['use_range'] = {SPECS[i]: txt if d['range'] == 'dict' else np.array(sorted(sel)) for i in who}
        for i in who:
            keep[i] = sel
    used = [(i, l) for i, l in pts if i in use and l in keep[i]]
    ix = [pts.index(p) for p in used]
    return write(os.path.join(folder, 'c.dataset'), '\n'.join(ini) + '\n'), params, used, np.array([spec[l, i] for i, l in used]), cov[np.ix_(ix, ix)]


def camspec_params(rng, acib):
    p = dict(aps100=200., aps143=50., aps217=100., psr=.9, dust100=1.1, dust143=.8, dust217=1.3, dust143x217=.7, acib217=40., cibr=.8, ncib=-.3, cibrun=.2, asz143=5., xi=.3, aksz=2.,
             calPlanck=1.01, cal0=.99, cal2=1.02, calTE=.97, calEE=1.03)
    p = {k: v * rng.uniform(.8, 1.2) for k, v in p.items()}
    if acib:
        p['acib143'] = rng.uniform(1, 10)
    for k in ('calPlanck', 'cal0', 'cal2', 'calTE', 'calEE'):
        if rng.random() < .3:
            del p[k]
    return p


def camspec_foreground(p, i, l):
    T = {k: v[0] / (v[0][3000] if 'dust' not in k else 1) for k, v in templates().items()}
    x = math.log(l / 3000.)
    cib = math.exp(p['ncib'] * x + p['cibrun'] * x * x / 2) * T['cib217'][l]
    ps = [p['aps100'], p['aps143'], p['aps217'], p['psr'] * math.sqrt(p['aps143'] * p['aps217'])][i] * 1e-6 / 9 * l * (l + 1)
    dust = p[['dust100', 'dust143', 'dust217', 'dust143x217'][i]] * T[['dust100', 'dust143', 'dust217', 'dust143x217'][i]][l]
    A217 = p['acib217'] * 1.33
    A143 = p['acib143'] * 1.134 if 'acib143' in p else .094 * p['acib217'] * 1.33
    sz = p['asz143'] * .95
    f = ps + dust + p['aksz'] * T['ksz'][l]
    if i == 0:
        f += p['asz143'] * 2.022 * T['sz143'][l]
    elif i == 1:
        f += A143 * cib + sz * T['sz143'][l] - 2 * math.sqrt(A143 * sz) * p['xi'] * T['tszxcib'][l]
    elif i == 2:
        f += A217 * cib
    else:
        f += p['cibr'] * math.sqrt(A143 * A217) * cib - math.sqrt(A217 * sz) * p['xi'] * T['tszxcib'][l]
    return f


def camspec_cal(p, i):
    c = [p.get('cal0', 1), 1, p.get('cal2', 1), math.sqrt(p.get('cal2', 1)), p.get('calTE', 1), p.get('calEE', 1)][i]
    return c * p.get('calPlanck', 1) ** 2


def theory_cls(rng, lmax=40):
    cls = ClsArray()
    th = {}
    for i, j in ((0, 0), (1, 0), (1, 1)):
        th[i, j] = rng.uniform(1, 10, lmax)
        cls.cls_array[i, j] = th[i, j].copy()
    return cls, th


@case(camspecs(), quick=250, thorough=6000, shards=4)
def camspec_likelihood(d, t):
    folder = t.dir()
    fname, params, used, data, cov = camspec_files(d, folder)
    if not used:
        return
    rng = np.random.default_rng(d['seed'] + 1)
    given = repr(params)
    likes = [quiet(CamSpec_likelihood, fname, params, silent=bool(d['seed'] % 2)) for _ in range(2)]  # the second may use saved inverses
    equal(repr(params), given, 'options of the caller')
    t.nontrivial(len(used) > 1)
    t.label('spectra left out', d['use'] is not None)
    t.label('range', d['range'] is not None)
    cls, th = theory_cls(rng)
    for k in range(2):
        p = camspec_params(rng, d['acib'])
        model = []
        for i, l in used:
            c = th[(0, 0) if i < 4 else ((1, 0), (1, 1))[i - 4]][l]
            model.append((c + (camspec_foreground(p, i, l) if i < 4 else 0)) / camspec_cal(p, i))
        delta = data - np.array(model)
        want = delta @ np.linalg.solve(cov, delta)
        for like in likes:
            close(like.chi_squared(cls, p), want, rtol=1e-4, atol=1e-4, what='chi squared')
        if any(i < 4 for i, _ in used):
            fg = likes[0].get_foregrounds(p)
            for i, l in used:
                if i < 4:
                    close(fg[i][l], camspec_foreground(p, i, l), rtol=1e-7, what='foreground %s L=%d' % (SPECS[i], l))


@case(camspecs(), quick=150, thorough=3000, shards=2)
def camspec_coadded(d, t):
    """coadded temperature spectrum: least squares over the calibrated spectra; differences of spectra with their covariance"""
    d = dict(d, gap=False, single=False)
    folder = t.dir()
    fname, params, used, data, cov = camspec_files(d, folder)
    if sum(1 for i, _ in used if i < 4) < 1 or any(i not in [u[0] for u in used] and (d['use'] is None or i in d['use']) and i not in d['missing'] for i in range(4)):
        return
    like = quiet(CamSpec_likelihood, fname, params, silent=True)
    rng = np.random.default_rng(d['seed'] + 1)
    p = camspec_params(rng, d['acib'])
    tt = [k for k, (i, _) in enumerate(used) if i < 4]
    ls = sorted(set(used[k][1] for k in tt))
    if ls != list(range(ls[0], ls[-1] + 1)):
        return
    prec = np.linalg.inv(cov)[np.ix_(tt, tt)]
    A = np.zeros((len(tt), len(ls)))
    y = np.zeros(len(tt))
    for n, k in enumerate(tt):
        i, l = used[k]
        A[n, ls.index(l)] = 1 / camspec_cal(p, i)
        y[n] = data[k] - camspec_foreground(p, i, l) / camspec_cal(p, i)
    F = A.T @ prec @ A
    want = np.linalg.solve(F, A.T @ prec @ y)
    t.nontrivial(len(ls) > 1 and len(tt) > len(ls))
    C, pc = like.coadded_TT(p)
    close(C[ls[0]:ls[-1] + 1], want, rtol=1e-5, atol=1e-5, what='coadded spectrum')
    close(pc, np.linalg.inv(F), rtol=1e-5, atol=1e-7, what='covariance of the coadded spectrum')
    C2 = like.coadded_TT(p, want_cov=False)
    close(C2[ls[0]:ls[-1] + 1], want, rtol=1e-5, atol=1e-5, what='coadded spectrum without covariance')
    assert not np.any(np.delete(C, np.arange(ls[0], ls[-1] + 1))), 'coadded spectrum outside the range of the data'
    for (ells, w), i in zip(like.get_weights(p), sorted(set(used[k][0] for k in tt))):
        e = np.array([used[k][0] == i for k in tt], float)
        ws = np.linalg.solve(F, A.T @ prec @ e)
        equal([int(x) for x in ells], [used[k][1] for k in tt if used[k][0] == i], 'multipoles of weights')
        close(w, [ws[ls.index(used[k][1])] for k in tt if used[k][0] == i], rtol=1e-5, atol=1e-5, what='weights of %s' % SPECS[i])
    have = sorted(set(i for i, _ in used if i < 4))
    for i in have:
        for j in have:
            if i == j:
                continue
            li, lj = [[l for a, l in used if a == q] for q in (i, j)]
            com = list(range(max(li[0], lj[0]), min(li[-1], lj[-1]) + 1))
            if not com:
                continue
            M = np.zeros((len(com), len(used)))
            f = np.zeros(len(com))
            for n, l in enumerate(com):
                M[n, used.index((i, l))] = camspec_cal(p, i)
                M[n, used.index((j, l))] = -camspec_cal(p, j)
                f[n] = -camspec_foreground(p, i, l) + camspec_foreground(p, j, l)
            ells, diff, pcov = like.diff(SPECS[i], SPECS[j], p)
            equal([int(x) for x in ells], com, 'multipoles of the difference')
            close(diff, M @ data + f, rtol=1e-6, atol=1e-8, what='difference of spectra')
            close(pcov, M @ cov @ M.T, rtol=1e-6, atol=1e-9, what='covariance of the difference')


@case(st.fixed_dictionaries(dict(seed=gen.seeds, n=st.sampled_from([5, 1200]), kind=st.sampled_from(['str', 'dict', 'array', 'cov', 'file']))), quick=12, thorough=60)
def camspec_saved_inverse(d, t):
    """inverse covariances saved by an earlier likelihood are not used for different data or options"""
    folder = t.dir()
    rng = np.random.default_rng(d['seed'])
    n = d['n']
    lo, hi = 3, 3 + n - 1
    np.savetxt(os.path.join(folder, 'hat.txt'), rng.uniform(1, 10, (hi + 1, 6)), fmt='%.10g')
    write(os.path.join(folder, 'ranges.txt'), '\n'.join(['%s 0 0' % s for s in SPECS[:5]] + ['EE %d %d' % (lo, hi)]) + '\n')

    def cov():
        C = np.diag(rng.uniform(1, 2, n))
        C.astype(np.float32).tofile(os.path.join(folder, 'cov.bin'))
        os.utime(os.path.join(folder, 'cov.bin'), (1e9 + rng.integers(1000), 1e9 + rng.integers(1000)))
        return C.astype(np.float32).astype(float)

    C = cov()
    fname = write(os.path.join(folder, 'c.dataset'), 'cl_hat_file = hat.txt\ncovmat_cl = %s\ndata_ranges = ranges.txt\ncovmat_fiducial = cov.bin\nuse_cl = EE\n' % ' '.join(SPECS))
    skip = lo + 1 + int(rng.integers(0, n - 2)) if d['kind'] in ('str', 'dict', 'array') else None

    def opts(skip):
        if d['kind'] in ('cov', 'file'):
            return {}
        if d['kind'] == 'array':
            return {'use_range': {'EE': np.array([l for l in range(lo, hi + 1) if l != skip])}}
        txt = '%d-%d' % (lo, hi) if skip is None else '%d-%d %d-%d' % (lo, skip - 1, skip + 1, hi)
        return {'use_range': txt if d['kind'] == 'str' else {'EE': txt}}

    t.nontrivial()
    a = quiet(CamSpec_likelihood, fname, opts(skip), silent=True)
    keep = [l - lo for l in range(lo, hi + 1) if l != skip]
    close(np.diag(a.covinv), 1 / np.diag(C)[keep], rtol=1e-5, what='inverse covariance')
    if d['kind'] in ('cov', 'file'):
        C = cov()
        new = None
    else:
        choices = [l for l in range(lo + 1, hi) if l != skip]
        new = choices[int(rng.integers(0, len(choices)))]
    keep = [l - lo for l in range(lo, hi + 1) if l != new]
    b = quiet(CamSpec_likelihood, fname, opts(new), silent=True)
    close(np.diag(b.covinv), 1 / np.diag(C)[keep], rtol=1e-5, what='inverse covariance with other options or data')


# ---------------------------------------------------------------- DES

TYPES = ['xip', 'xim', 'gammat', 'wtheta']


@st.composite
def des_sets(draw):
    nz, nw = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return dict(seed=draw(gen.seeds), nz=nz, nw=nw, nth=draw(st.integers(2, 5)), used=draw(st.one_of(st.none(), st.sets(st.sampled_from(TYPES), min_size=1).map(sorted))),
                cut=draw(st.floats(0, 1)), omit=draw(st.booleans()), override=draw(st.booleans()), asym=draw(st.booleans()), dense=draw(st.booleans()))


def des_files(d, folder):
    rng = np.random.default_rng(d['seed'])
    theta = np.sort(rng.uniform(20, 250, d['nth']))
    np.savetxt(os.path.join(folder, 'theta.dat'), theta)
    theta = np.loadtxt(os.path.join(folder, 'theta.dat'))
    nz, nw, nth = d['nz'], d['nw'], d['nth']
    pairs = dict(xip=[(i, j) for i in range(nz) for j in range(i, nz)], gammat=[(i, j) for i in range(nw) for j in range(nz)], wtheta=[(i, i) for i in range(nw)])
    pairs['xim'] = pairs['xip']
    ini = ['data_types = ' + ' '.join(TYPES), 'num_z_bins = %d' % nz, 'num_gal_bins = %d' % nw, 'num_theta_bins = %d' % nth, 'theta_bins_file = theta.dat', 'cov_file = cov.dat',
           'intrinsic_alignment_model = DES1YR', 'nz_file = nzs.dat', 'nz_gal_file = nzl.dat', 'data_selection = sel.dat', 'kmax = 10']
    pts, sel = [], ['#  type bin1 bin2 theta_min theta_max']
    cuts = {}
    for tp in TYPES:
        rows = []
        for i, j in pairs[tp]:
            for k in range(nth):
                v = float('%.8e' % rng.normal())
                pts.append((tp, i, j, k, v))
                rows.append('%d %d %d %r' % (i + 1, j + 1, k + 1, v))
            if d['omit'] and rng.random() < .2:
                continue
            lo, hi = rng.uniform(0, 20 + 200 * d['cut']), rng.uniform(200, 260)
            if rng.random() < .2:
                lo = theta[int(rng.integers(nth))]
            cuts[tp, i, j] = (lo, hi)
            sel.append('%s %d %d %r %r' % (tp, i + 1, j + 1, float(lo), float(hi)))
        write(os.path.join(folder, tp + '.dat'), '# BIN1 BIN2 ANGBIN VALUE\n' + '\n'.join(rows) + '\n')
        ini.append('measurements[%s] = %s.dat' % (tp, tp))
    write(os.path.join(folder, 'sel.dat'), '\n'.join(sel) + '\n')
    cov = spd(rng, len(pts), 1.)
    np.savetxt(os.path.join(folder, 'cov.dat'), cov)
    z = np.arange(1, 121) * .0125
    zl = z - .00625
    cen = rng.uniform(.5, .9, nz)
    wid = rng.uniform(.08, .15, nz)
    ns = np.exp(-(z[:, None] - cen) ** 2 / 2 / wid ** 2)
    cenw = rng.uniform(.3, .8, nw)
    nl = np.exp(-(z[:, None] - cenw) ** 2 / 2 / .08 ** 2)
    np.savetxt(os.path.join(folder, 'nzs.dat'), np.column_stack([zl, z, z + .00625, ns]))
    np.savetxt(os.path.join(folder, 'nzl.dat'), np.column_stack([zl, z, z + .00625, nl]))
    over = {}
    if d['used'] is not None:
        if d['override']:
            over['used_data_types'] = ' '.join(d['used'])
            ini.append('used_data_types = ' + ' '.join(TYPES))
        else:
            ini.append('used_data_types = ' + ' '.join(d['used']))
    used = TYPES if d['used'] is None else d['used']
    take = [n for n, (tp, i, j, k, v) in enumerate(pts) if tp in used and (tp, i, j) in cuts and cuts[tp, i, j][0] < theta[k] < cuts[tp, i, j][1]]
    return write(os.path.join(folder, 'd.dataset'), '\n'.join(ini) + '\n'), over, theta, pairs, pts, take, cov, z, ns, nl, used


@case(des_sets(), quick=120, thorough=3000, shards=4)
def des_data(d, t):
    folder = t.dir()
    fname, over, theta, pairs, pts, take, cov, z, ns, nl, used = des_files(d, folder)
    if not take:
        return
    like = DES_like(fname, over, lmax=40)
    rng = np.random.default_rng(d['seed'] + 1)
    maxb = max(d['nz'], d['nw'])
    model = {}
    arrays = []
    for tp in TYPES:
        arr = np.empty((maxb, maxb), dtype=object)
        for i, j in pairs[tp]:
            arr[i, j] = rng.normal(size=d['nth'])
            for k in range(d['nth']):
                model[tp, i, j, k] = arr[i, j][k]
        arrays.append(arr)
    y = np.array([pts[n][4] - model[pts[n][:4]] for n in take])
    C = cov[np.ix_(take, take)]
    t.nontrivial(1 < len(take) < len(pts))
    close(like.chi_squared(arrays), y @ np.linalg.solve(C, y), rtol=1e-8, what='chi squared')
    vec, chi2 = like.chi_squared(arrays, return_theory_vector=True)
    close(vec, [model[pts[n][:4]] for n in take], what='theory vector')
    close(chi2, y @ np.linalg.solve(C, y), rtol=1e-8, what='chi squared with vector')
    close(like.data_vector, [pts[n][4] for n in take], what='data vector')
    close(like.make_thetas(arrays), [theta[pts[n][3]] for n in take], what='angles')
    close(like.thetas, [theta[pts[n][3]] for n in take], what='angles')
    for n, (tp, i, j, k, v) in enumerate(pts):
        close(like.errors[TYPES.index(tp)][i, j][k], math.sqrt(cov[n, n]), what='error')
        close(like.data_arrays[TYPES.index(tp)][i, j][k], v, what='data')


class Power:
    kmax = 1e5

    def __init__(self, amp, n):
        self.amp, self.n = amp, n

    def P(self, z, k, grid=None):
        k = np.asarray(k, float)
        return self.amp * k / (1 + (k / .02) ** 2) ** (.5 + self.n / 2) * np.ones_like(np.asarray(z, float)) / (1 + np.asarray(z, float)) ** 1.4


class Background:
    H0 = 70.
    c = 299792.458

    def h_of_z(self, z):  # 1/Mpc
        return self.H0 / self.c * np.sqrt(.3 * (1 + np.asarray(z)) ** 3 + .7)

    def comoving_radial_distance(self, z):
        zz = np.linspace(0, 2, 4001)
        f = 1 / self.h_of_z(zz)
        chi = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2 * np.diff(zz))])
        return np.interp(z, zz, chi)


@case(des_sets(), quick=24, thorough=300, shards=4)
def des_theory(d, t):
    """correlation functions against direct sums over multipoles of Limber integrals on a finer grid"""
    folder = t.dir()
    fname, over, theta, pairs, pts, take, cov, z, ns, nl, used = des_files(d, folder)
    lmax = 600
    if not take:
        return
    DES._binned_bessels = not d['dense']
    try:
        like = DES_like(fname, over, lmax=lmax)
    finally:
        DES._binned_bessels = True
    rng = np.random.default_rng(d['seed'] + 3)
    P, B = Power(3e5, 2.5), Background()
    pars = types.SimpleNamespace(H0=70., omegab=.05, omegac=.245, omeganu=.005)
    nz, nw = d['nz'], d['nw']
    kw = dict(bin_bias=list(rng.uniform(1.2, 2, nw)), shear_calibration_parameters=list(rng.uniform(-.1, .1, nz)), intrinsic_alignment_A=rng.uniform(-2, 2),
              intrinsic_alignment_alpha=rng.uniform(-1, 2), intrinsic_alignment_z0=.62, wl_photoz_errors=list(rng.uniform(-.03, .03, nz)), lens_photoz_errors=list(rng.uniform(-.03, .03, nw)))
    got = like.get_theory(pars, B, P, **kw)
    # reference
    zf = np.linspace(z[0], z[-1], 1500)
    chi, H = B.comoving_radial_distance(zf), B.h_of_z(zf)
    D = np.sqrt(P.P(zf, .001) / P.P(0, .001))
    hfac = 1.5 * .3 * .49 * (100 / 299792.458) ** 2
    ls = np.unique(np.geomspace(2, lmax, 60).astype(int)).astype(float)

    def integrate(y, x):
        return np.sum((y[1:] + y[:-1]) / 2 * np.diff(x))

    def nofz(n, shift):
        y = CubicSpline(z, n)(zf - shift)
        y[zf - shift < 0] = 0
        return y * H

    q = {}
    for b in range(nw):
        q['w', b] = kw['bin_bias'][b] * nofz(nl[:, b], kw['lens_photoz_errors'][b])
    for b in range(nz):
        n = nofz(ns[:, b], kw['wl_photoz_errors'][b])
        eff = np.array([integrate(n[i:] * (1 - chi[i] / chi[i:]), chi[i:]) if i < len(chi) - 1 else 0. for i in range(len(chi))])
        ia = kw['intrinsic_alignment_A'] * ((1 + zf) / 1.62) ** kw['intrinsic_alignment_alpha'] * .0134 / D
        q['|s|', b] = hfac * (1 + zf) * chi * eff + .3 * np.abs(ia) * n  # numerical scale
        q['s', b] = hfac * (1 + zf) * chi * eff - .3 * ia * n  # -A_IA C rho_m/D n(z), with C rho_crit = 0.0134
    L = np.arange(2, lmax + 1)

    def corr(a, b, nu):
        cl = np.array([integrate(q[a] * q[b] / chi ** 2 * P.P(zf, (l + .5) / chi), chi) for l in ls])
        cl = CubicSpline(np.log(ls), cl)(np.log(L))
        return np.array([np.sum(L * cl * scipy.special.jn(nu, L * x)) / 2 / np.pi for x in theta / 60 * np.pi / 180])

    m = kw['shear_calibration_parameters']
    t.nontrivial(nz + nw > 2)
    for tp, arr in zip(TYPES, got):
        if tp not in used and not (tp in ('xip', 'xim') and ('xip' in used or 'xim' in used)):
            continue
        for i, j in pairs[tp]:
            if tp in ('xip', 'xim'):
                want = (1 + m[i]) * (1 + m[j]) * corr(('s', i), ('s', j), 0 if tp == 'xip' else 4)
                ref = max(np.abs(corr(('|s|', i), ('|s|', j), nu)).max() for nu in (0, 2, 4))
            elif tp == 'gammat':
                want = (1 + m[j]) * corr(('w', i), ('s', j), 2)
                ref = max(np.abs(corr(('w', i), ('|s|', j), nu)).max() for nu in (0, 2, 4))
            else:
                want = corr(('w', i), ('w', j), 0)
                ref = max(np.abs(corr(('w', i), ('w', j), nu)).max() for nu in (0, 2, 4))
            err = np.max(np.abs(arr[i, j] - want)) / ref
            t.label('%s error > 1%%' % tp, err > .01)
            assert err < .03, '%s of bins %d, %d: got %s, expected %s' % (tp, i, j, arr[i, j], want)
    chi2 = like.chi_squared(got)
    y = np.array([pts[n][4] - got[TYPES.index(pts[n][0])][pts[n][1], pts[n][2]][pts[n][3]] for n in take])
    close(chi2, y @ np.linalg.solve(cov[np.ix_(take, take)], y), rtol=1e-7, what='chi squared')
    # in general relativity the Weyl potential power spectrum is the matter one times a factor
    weyl = types.SimpleNamespace(kmax=P.kmax, P=lambda zz, k, grid=None: (hfac * (1 + np.asarray(zz))) ** 2 * P.P(zz, k))
    if 'gammat' in used:
        assert raises(like.get_theory, pars, B, P, weyl, exc=ValueError, **kw), 'lens-galaxy correlation from the Weyl potential'
    else:
        for tp, a, b in zip(TYPES, got, like.get_theory(pars, B, P, weyl, **kw)):
            for i, j in pairs[tp]:
                if tp in used:
                    close(b[i, j], a[i, j], rtol=1e-9, what='%s from the Weyl potential' % tp)
    if rng.random() < .5:
        names = dict(DES_AIA=kw['intrinsic_alignment_A'], DES_alphaIA=kw['intrinsic_alignment_alpha'])
        for k, key, n in (('DES_DzS', 'wl_photoz_errors', 4), ('DES_DzL', 'lens_photoz_errors', 5), ('DES_b', 'bin_bias', 5), ('DES_m', 'shear_calibration_parameters', 4)):
            for i in range(n):
                names['%s%d' % (k, i + 1)] = kw[key][i] if i < len(kw[key]) else 99.
        again = like.get_theory_for_params(names, pars, (B, P, None))
        for a, b, tp in zip(got, again, TYPES):
            for i, j in pairs[tp]:
                if a[i, j] is not None:
                    close(b[i, j], a[i, j], rtol=1e-12, what='%s from parameter values' % tp)


class FitsTable:
    """stand-in for the table data of astropy.io.fits"""

    def __init__(self, names, cols):
        self.names, self.cols, self.array = list(names), [np.asarray(c) for c in cols], np.rec.fromarrays(cols, names=','.join(names))
        self.shape, self.dtype = self.array.shape, self.array.dtype

    def __len__(self):
        return len(self.array)

    def field(self, i):
        return self.cols[i] if not isinstance(i, str) else self.cols[self.names.index(i)]

    def __getitem__(self, i):
        if isinstance(i, str):
            return self.field(i)
        return self.array[i] if isinstance(i, slice) else tuple(self.array[i])

    def __iter__(self):
        return (tuple(x) for x in self.array)


@st.composite
def fits_sets(draw):
    return dict(seed=draw(gen.seeds), amp=draw(st.floats(1e-6, 1e-2)), extra=draw(st.integers(1, 30)), root=draw(st.sampled_from(['DES', 'des_1yr', 'a.b'])), own=draw(st.booleans()),
                plots=draw(st.sampled_from(['data', 'theory', 'diff', 'ratio'])), errors=draw(st.booleans()))


@case(fits_sets(), quick=12, thorough=120, shards=6)
def des_fits(d, t):
    """the text files converted from the original data file describe the same likelihood"""
    import matplotlib.pyplot as plt
    folder = t.dir()
    rng = np.random.default_rng(d['seed'])
    nz, nw, nth = 4, 5, 20
    theta = np.geomspace(2.5, 250, nth + 1)[:-1] * rng.uniform(1.05, 1.1)
    pairs = dict(xip=[(i, j) for i in range(nz) for j in range(i, nz)], gammat=[(i, j) for i in range(nw) for j in range(nz)], wtheta=[(i, i) for i in range(nw)])
    pairs['xim'] = pairs['xip']
    hdus, pts = {}, []
    for tp in TYPES:
        rows = [(i + 1, j + 1, k, d['amp'] * rng.normal(), theta[k] * (1 + rng.uniform(-1e-5, 1e-5)), 0.) for i, j in pairs[tp] for k in range(nth)]
        pts += [(tp, r[0] - 1, r[1] - 1, r[2], r[3], r[4]) for r in rows]
        c = list(zip(*rows))
        hdus[tp] = FitsTable(['BIN1', 'BIN2', 'ANGBIN', 'VALUE', 'ANG', 'NPAIRS'], [np.array(x) for x in c])
    n = len(pts)
    err = rng.uniform(.5, 2, n) * d['amp']
    load = rng.normal(size=(n, 3)) * .3
    C = (load @ load.T + np.eye(n)) * np.outer(err, err)
    hdus['COVMAT'] = types.SimpleNamespace()
    zrows = 352 + d['extra']
    zmid = .005 + .01 * np.arange(zrows)
    nzs = {}
    for name, m in (('NZ_SOURCE', nz), ('NZ_LENS', nw)):
        cen = rng.uniform(.3, 1.5, m)
        nzs[name] = np.exp(-(zmid[:, None] - cen) ** 2 / 2 / .15 ** 2) + 1e-3
        nzs[name][352:] = 0
        hdus[name] = FitsTable(['Z_LOW', 'Z_MID', 'Z_HIGH'] + ['BIN%d' % (b + 1) for b in range(m)], [zmid - .005, zmid, zmid + .005] + list(nzs[name].T))
    hdus = {k: types.SimpleNamespace(data=v) for k, v in hdus.items()}
    hdus['COVMAT'] = types.SimpleNamespace(data=C)
    fits = types.ModuleType('astropy.io.fits')
    fits.open = lambda f: hdus
    aio, ap = types.ModuleType('astropy.io'), types.ModuleType('astropy')
    aio.fits, ap.io = fits, aio
    ranges = DES.get_def_cuts()
    if d['own']:  # other cuts
        ranges = {tp: r.copy() for tp, r in ranges.items()}
        for tp in TYPES:
            for i, j in pairs[tp]:
                ranges[tp][i, j] = [float('%.6f' % rng.uniform(1, 60)), float('%.6f' % rng.uniform(60, 300))]
    saved = {k: sys.modules.get(k) for k in ('astropy', 'astropy.io', 'astropy.io.fits')}
    sys.modules.update({'astropy': ap, 'astropy.io': aio, 'astropy.io.fits': fits})
    try:
        if d['own']:
            DES.convert_txt('data.fits', d['root'], folder + '/', ranges)
        else:
            DES.convert_txt('data.fits', d['root'], folder + '/')
            orig = DES_like('data.fits', lmax=30)
        assert raises(DES_like, 'data.fits', {'used_data_types': 'xip'}, lmax=30, exc=ValueError), 'options for the original file'
    finally:
        for k, v in saved.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    like = DES_like(os.path.join(folder, d['root'] + '.dataset'), {}, lmax=30)
    take = [i for i, (tp, a, b, k, v, th) in enumerate(pts) if ranges[tp][a, b][0] < th < ranges[tp][a, b][1]]
    model = {x[:4]: d['amp'] * rng.normal() for x in pts}
    arrays = []
    for tp in TYPES:
        arr = np.empty((nw, nw), dtype=object)
        for i, j in pairs[tp]:
            arr[i, j] = np.array([model[tp, i, j, k] for k in range(nth)])
        arrays.append(arr)
    y = np.array([pts[i][4] - model[pts[i][:4]] for i in take])
    CC = np.array([float('%.4e' % x) for x in C[np.ix_(take, take)].ravel()]).reshape(len(take), -1)
    t.nontrivial(len(take) < n)
    close(like.chi_squared(arrays), y @ np.linalg.solve(CC, y), rtol=1e-5, what='chi squared from the converted files')
    close(like.data_vector, [pts[i][4] for i in take], rtol=1e-7, what='data vector from the converted files')
    close(like.thetas, [theta[pts[i][3]] for i in take], rtol=2e-5, what='angles')
    close(like.zmid, zmid[:352], rtol=1e-5, what='redshifts')
    close(like.zmax, zmid[351], rtol=1e-6, what='largest redshift')
    zz = np.linspace(.01, 3.4, 50)
    for b in range(nz):
        close(like.zbin_sp[b](zz), CubicSpline(zmid, nzs['NZ_SOURCE'][:, b])(zz), rtol=1e-3, atol=1e-4, what='source redshift distribution')
    for b in range(nw):
        close(like.zbin_w_sp[b](zz), CubicSpline(zmid, nzs['NZ_LENS'][:, b])(zz), rtol=1e-3, atol=1e-4, what='lens redshift distribution')
    if not d['own']:
        Cf = C[np.ix_(take, take)]
        close(orig.chi_squared(arrays), y @ np.linalg.solve(Cf, y), rtol=1e-7, what='chi squared from the original file')
        close(orig.data_vector, [pts[i][4] for i in take], what='data vector from the original file')
        close(orig.zmax, like.zmax, rtol=1e-6, what='largest redshift')
        for i, x in enumerate(pts):
            close(orig.errors[TYPES.index(x[0])][x[1], x[2]][x[3]], math.sqrt(C[i, i]), what='error')
    # plots
    diff, ratio = d['plots'] == 'diff', d['plots'] == 'ratio'
    for tp, plot in (('xip', like.plot_lensing), ('gammat', like.plot_cross), ('wtheta', like.plot_w)):
        th = () if d['plots'] == 'data' else (arrays[0], arrays[1]) if tp == 'xip' else (arrays[TYPES.index(tp)],)
        axs = plot(*th, errors=d['errors'] and not ratio, diff=diff or ratio)
        for i, j in pairs[tp]:
            ax = axs[i, j] if tp == 'xip' else axs[j, i] if tp == 'gammat' else axs[i]
            for q in (('xip', 'xim') if tp == 'xip' else (tp,)):
                ys = np.array([[x[4], model[x[:4]], math.sqrt(C[a, a])] for a, x in enumerate(pts) if x[:3] == (q, i, j)])
                fac = {'xip': 1e4, 'gammat': 100, 'wtheta': 1}[tp] * theta
                if diff or ratio:
                    want = [(ys[:, 0] - ys[:, 1]) / ys[:, 2] if diff and d['errors'] else ys[:, 0] / ys[:, 1] - 1]
                else:
                    want = [ys[:, 0] * fac] + ([ys[:, 1] * fac] if th else [])
                for w in want:
                    assert any(np.allclose(l.get_xdata(), theta, rtol=1e-4) and np.allclose(l.get_ydata(), w, rtol=1e-4, atol=1e-12 * np.abs(w).max())
                               for l in ax.lines if len(l.get_xdata()) == nth), '%s bins %d %d: no line %s' % (q, i, j, w)
                if d['errors'] and not (diff or ratio):
                    segs = [np.array(s) for c in ax.collections for s in c.get_segments()]
                    assert any(np.allclose(s[:, 1], (ys[0, 0] + np.array([-1, 1]) * ys[0, 2]) * fac[0], rtol=1e-3, atol=1e-3 * ys[0, 2] * fac[0]) for s in segs), '%s bins %d %d: no error bars' % (q, i, j)
        plt.close('all')


@case(st.fixed_dictionaries(dict(weyl=st.booleans(), data=des_sets())), quick=24, thorough=200, shards=2)
def des_camb(d, t):
    """power spectra requested for the calculation"""
    fname, over, theta, pairs, pts, take, cov, z, ns, nl, used = des_files(d['data'], t.dir())
    if not take:
        return
    camb = sys.modules['camb']
    calls = []

    def interp(pars, var1=None, var2=None, **kw):
        calls.append(kw)
        return 'P', pars, var1, var2

    names = dict(get_background=lambda pars: ('background', pars), get_matter_power_interpolator=interp)
    saved = {k: getattr(camb, k, None) for k in names}
    weyl = getattr(camb.model, 'Transfer_Weyl', None)
    try:
        for k, v in names.items():
            setattr(camb, k, v)
        if weyl is None:
            camb.model.Transfer_Weyl = 'weyl'
        like = DES_like(fname, over, lmax=30, use_Weyl=d['weyl'])
        got = like.get_camb_theory('pars')
    finally:
        for k, v in saved.items():
            if v is not None:
                setattr(camb, k, v)
            else:
                delattr(camb, k)
    t.nontrivial(d['weyl'])
    w = weyl or 'weyl'
    equal(got, (('background', 'pars'), ('P', 'pars', None, None), ('P', 'pars', w, w) if d['weyl'] else None), 'background, matter and lensing power spectra')
    for kw in calls:
        assert kw['zmax'] >= z[-1] and kw['nonlinear'] and not kw['hubble_units'] and not kw['k_hunit'], kw
