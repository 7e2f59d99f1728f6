"""Post-processing of plik runs and theory spectra: foregrounds added to results, the python plik likelihood, spectra plots, latex snippets, smoothing and CAMB parameters."""
import contextlib
import importlib
import importlib.util
import io
import os
import re
import runpy
import sys
import types as pytypes
import warnings
import matplotlib

matplotlib.use('Agg')
import matplotlib.pyplot as plt
import numpy as np
from hypothesis import strategies as st
from vlib import case, close, equal, raises, read, write
from gen import seeds, name_list
import CMBlikes
import paramgrid
import paramgrid.jobqueue
from getdist import types as gdtypes

RULE = ('generated results of plik runs (parameter lists with varying, fixed and derived parameters, chains, best fits) with stand-in foreground components, synthetic plik data sets, '
        'dumped spectra and statistics files; non-trivial: several foreground components, masked spectra, several multipole bins, or more than one file')
ASSUMPTIONS = ['clik and camb are stand-ins with the interfaces the code calls', 'at most 22 characters in parameter names',
               'coadded_TT: unbinned likelihoods (bins one multipole wide) with all temperature bins used']

PY = os.path.normpath(os.path.join(os.path.dirname(paramgrid.__file__), '..')) + os.sep
DATA = os.path.normpath(os.path.join(PY, '..', 'data')) + os.sep


def run_script(name, args, env=None):
    out = io.StringIO()
    old = sys.argv
    sys.argv = [PY + name] + list(args)
    try:
        with contextlib.redirect_stdout(out):
            try:
                runpy.run_path(PY + name, run_name='__main__')
            except SystemExit as e:
                assert not e.code, '%s exits with %s' % (name, e.code)
    finally:
        sys.argv = old
    return out.getvalue()


# stand-in clik

FILES = {}


class Component:
    """Foreground: amplitude times template, power law in the second parameter"""

    def __init__(self, name, varpar, templ, l0, lmin, lmax):
        self.name, self.varpar, self.templ, self.l0, self.lmin, self.lmax = name, list(varpar), templ, l0, lmin, lmax

    def get_name(self):
        return self.name

    def __call__(self, pars):
        assert len(pars) == len(self.varpar)
        ls = np.arange(self.lmin, self.lmax + 1)
        fac = np.ones(len(ls))
        for i, p in enumerate(pars):
            fac = fac * (float(p) if i == 0 else ((ls + 1.) / self.l0) ** float(p))
        return fac[:, None, None] * self.templ[None, :, :]


class Clik:
    def __init__(self, fname):
        self.spec = FILES[fname]
        self.extra_parameter_names = list(self.spec['keys'])
        self.lmax = self.spec['lmaxs']

    def get_extra_parameter_names(self):
        return list(self.spec['keys'])

    def __call__(self, vec):
        self.spec['calls'].append(np.array(vec))
        return self.spec.get('like', -1.5)


def components(fname, lmin=None, lmax=None):
    s = FILES[fname]
    return [Component(n, v, tm, l0, s['lmin'] if lmin is None else lmin, s['lmax'] if lmax is None else lmax) for n, v, tm, l0 in s['components']]


class Calib:
    def __init__(self, varpar, f):
        self.varpar, self.f = varpar, f

    def __call__(self, vec):
        return self.f(np.array(vec))


def load(name):
    clik = pytypes.ModuleType('clik')
    clik.clik = Clik
    smh = pytypes.ModuleType('clik.smicahlp')
    smh.parametric_from_smica = components
    smh.calTP_from_smica = lambda f: Calib(*FILES[f]['cal'])
    smh.beamTP_from_smica = lambda f: Calib(*FILES[f]['beam'])
    smh.ordering_from_smica = lambda f: (list(FILES[f]['oo']), FILES[f]['Jt'].copy())
    php = pytypes.ModuleType('clik.parobject')
    php.read_bins = lambda node: node['bins'].copy()
    hpy = pytypes.ModuleType('clik.hpy')
    hpy.File = lambda f: FILES[f]['file']
    clik.smicahlp, clik.parobject, clik.hpy = smh, php, hpy
    mods = {'clik': clik, 'clik.smicahlp': smh, 'clik.parobject': php, 'clik.hpy': hpy}
    old = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        sys.modules.pop(name, None)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return importlib.import_module(name)
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


# foregrounds of a run

@st.composite
def runs(draw):
    names = [n.replace('chi2', 'xi2') for n in draw(name_list(5, 12))]
    names = [n for i, n in enumerate(names) if n not in names[:i]]
    nfg = draw(st.integers(2, min(5, len(names))))
    ncomp = draw(st.integers(1, 4))
    comps = []
    for i in range(ncomp):
        comps.append([draw(st.lists(st.integers(0, nfg - 1), min_size=0, max_size=2, unique=True)), draw(st.booleans())])
    kinds = [draw(st.sampled_from('vvf')) for _ in range(nfg)] + [draw(st.sampled_from('vvfd')) for _ in names[nfg:]]
    return dict(seed=draw(seeds), names=names, nfg=nfg, kinds=kinds, comps=comps, chi2=draw(st.integers(0, 3)), pol=draw(st.sampled_from(['T', 'T', 'TP'])),
                rows=draw(st.integers(1, 8)), nchain=draw(st.integers(1, 3)), order=draw(seeds), text=draw(st.booleans()))


def setup(c, d, lmaxs=None, need_chi2=False):
    """files of a run; -> dict"""
    r = np.random.RandomState(c['seed'])
    names, nfg = c['names'], c['nfg']
    perm = np.random.RandomState(c['order']).permutation(nfg)
    fg = [names[i] for i in perm]  # in order of the likelihood
    keys = ['K_%s' % n for n in fg]
    size = {'T': 3, 'TP': 6, 'P': 3}[c['pol']]
    comps = []
    for i, (pars, tonly) in enumerate(c['comps']):
        m = 3 if tonly else size
        a = r.uniform(0.5, 2, size=(m, m)) * 10. ** r.randint(-2, 2)
        comps.append(('comp%d' % i, [keys[fg.index(names[j])] for j in pars], a + a.T, 1500.))
    f = d + '/plik.clik'
    FILES.clear()
    FILES[f] = dict(keys=keys, lmaxs=lmaxs or [2508] + [2508 if c['pol'] == 'TP' else -1] * 1 + [-1] * 4, components=comps, lmin=0, lmax=2508, calls=[])
    write(d + '/plik.paramnames', ''.join('%-12s  L_{%s}   # a comment\n' % (n, n) for n in fg))
    order = [int(i) for i in np.random.RandomState(c['order'] + 1).permutation(len(names))]
    groups = {k: [names[i] for i in order if c['kinds'][i] == k] for k in 'vfd'}
    nchi = max(c['chi2'], 1) if need_chi2 else c['chi2']
    chi = ['chi2_%s' % x for x in ['plik', 'lowl', 'BAO'][:nchi]]
    vals = {n: float('%.7E' % r.uniform(0.2, 2)) for n in names + chi}
    return dict(r=r, fg=fg, keys=keys, comps=comps, clik=f, groups=groups, chi=chi, vals=vals, lmaxs=FILES[f]['lmaxs'])


def minimum(s, tail=True):
    out = [' -log(Like) =    612.3456', '  chi-sq    =    1224.6912', ' ']
    i = 0
    for kind in 'vfd':
        for n in s['groups'][kind] + (s['chi'] if kind == 'd' else []):
            i += 1
            out.append('%5i%15.7E   %-22s%s' % (i, s['vals'][n], n, 'L_{%s}' % n))
        if kind != 'd':
            out.append(' ')
    out += [' ', ' -log(Like)     chi-sq   data', '%11.3f%11.3f   %s' % (3.25, 6.5, 'CMB: plik = plik_rd12 HM'), '%11.3f%11.3f   %s' % (1.25, 2.5, 'BAO: DR12')]
    return '\n'.join(out) + '\n'


def foreground(s, vals, ls, size):
    """sum of all components (ls x size x size)"""
    tot = np.zeros((len(ls), size, size))
    for _, varpar, tm, l0 in s['comps']:
        fac = np.ones(len(ls))
        for i, k in enumerate(varpar):
            v = vals[s['fg'][s['keys'].index(k)]]
            fac = fac * (v if i == 0 else ((ls + 1.) / l0) ** v)
        m = min(size, tm.shape[0])
        tot[:, :m, :m] += fac[:, None, None] * tm[None, :m, :m]
    return tot


@case(st.tuples(runs(), st.sampled_from(['T', 'TP', 'P']), st.booleans()), quick=60, thorough=900, shards=3)
def foreground_file(c, t):
    """spectra of the best-fit foregrounds"""
    spec, pol, tfirst = c
    spec = dict(spec, pol=pol)
    if pol == 'TP' and not any(not x[1] for x in spec['comps']):
        spec['comps'] = spec['comps'] + [[[0], False]]
    if tfirst:
        spec['comps'] = sorted(spec['comps'], key=lambda x: not x[1])
    d = t.dir()
    s = setup(spec, d, lmaxs={'T': [2508] + [-1] * 5, 'TP': [2508, 2508, -1, 2508, -1, -1], 'P': [-1, 2508] + [-1] * 4}[pol])
    t.nontrivial(len(spec['comps']) > 1)
    t.label(pol)
    write(d + '/r.minimum', minimum(s))
    m = load('planck.plik_postprocess')
    with contextlib.redirect_stdout(io.StringIO()):
        m.main_fgfile(['', s['clik'], d + '/plik.paramnames', d + '/r.minimum', d + '/out.txt'])
    head = [x for x in read(d + '/out.txt').split('\n') if x.startswith('#')][0].split()[1:]
    dat = np.loadtxt(d + '/out.txt')
    cols = {h.upper(): dat[:, i] for i, h in enumerate(head)}
    equal(len(cols), dat.shape[1], 'columns')
    ls = np.arange(2, 3000)
    equal([int(x) for x in cols['L']], [int(x) for x in ls], 'multipoles')
    size = 6 if pol == 'TP' else 3
    D = foreground(s, s['vals'], ls, size) * (ls * (ls + 1) / 2. / np.pi)[:, None, None]
    if pol == 'P':
        D = np.pad(D, ((0, 0), (3, 0), (3, 0)))
    D = np.pad(D, ((0, 0), (0, 6 - D.shape[1]), (0, 6 - D.shape[1])))
    freq = ['100', '143', '217']
    n = 0
    for h, x in cols.items():
        if h == 'L':
            continue
        i, j = freq.index(h[2:5]) + 3 * (h[0] == 'E'), freq.index(h[6:9]) + 3 * (h[1] == 'E')
        if h == 'TT100X100' or h[:2] != 'TT' or i or j:
            n += 1
            close(x, D[:, i, j], rtol=2e-6, atol=1e-300, what=h)
    equal(n, 16, 'spectra')


def parse_names(text):
    return [x.split(None, 1)[0] for x in text.split('\n') if x.strip()]


@case(st.tuples(runs(), st.sampled_from(['minimum', 'ranges']), st.sampled_from(['', '_fg', '_x2'])), quick=120, thorough=2000, shards=3)
def foreground_params(c, t):
    """foreground spectra at l=2000 as derived parameters of the chains, best fit and parameter names"""
    spec, source, tag = c
    d = t.dir()
    s = setup(spec, d, need_chi2=source == 'minimum')
    t.nontrivial(len(s['chi']) > 0 and len(spec['comps']) > 1)
    t.label(source)
    r = s['r']
    # chains have varying and derived parameters
    chain_names = s['groups']['v'] + s['groups']['d'] + s['chi']
    derived = s['groups']['d'] + s['chi']
    write(d + '/run.paramnames', ''.join('%s%s\tL_{%s}\n' % (n, '*' if n in derived else '', n) for n in chain_names))
    if source == 'minimum':
        write(d + '/run.minimum', minimum(s))
    write(d + '/run.ranges', ''.join('%-20s %15.7E %15.7E\n' % (n, s['vals'][n], s['vals'][n] if n in s['groups']['f'] else s['vals'][n] + 2) for n in s['groups']['v'] + s['groups']['f'])
          + ''.join('%-20s 0 N\n' % n for n in s['groups']['d'][:1]))
    chains = []
    for i in range(spec['nchain']):
        x = np.hstack([r.randint(1, 9, size=(spec['rows'], 1)), r.uniform(500, 700, size=(spec['rows'], 1)), r.uniform(0.1, 2, size=(spec['rows'], len(chain_names)))])
        np.savetxt(d + '/run_%d.txt' % (i + 1), x, fmt='%16.7E')
        chains.append(np.loadtxt(d + '/run_%d.txt' % (i + 1), ndmin=2))
    m = load('planck.plik_postprocess')
    with contextlib.redirect_stdout(io.StringIO()):
        m.main_fg2000(['', s['clik'], d + '/plik.paramnames', d + '/run.' + source, d + '/run.paramnames'] + [d + '/run_%d.txt' % (i + 1) for i in range(len(chains))], tag=tag)
    new = ['f2000_143*', 'f2000_x*', 'f2000_217*']
    star = [n + '*' * (n in derived) for n in chain_names]
    k = len(star) - len(s['chi'])
    got = parse_names(read(d + '/run%s.paramnames' % tag))
    equal(got, star[:k] + new + star[k:], 'parameters')
    labels = {x.split(None, 1)[0]: x.split(None, 1)[1].strip() for x in read(d + '/run%s.paramnames' % tag).split('\n') if x.strip()}
    for n in star:
        equal(labels[n], 'L_{%s}' % n.replace('*', ''), 'label')
    llp1 = 2000 * 2001 / 2. / np.pi

    def expect(vals):
        f = foreground(s, vals, np.array([2000]), 3)[0] * llp1
        return np.array([f[1, 1], f[1, 2], f[2, 2]])

    for i, x in enumerate(chains):
        f = d + '/run_%d.txt' % (i + 1) if not tag else d + '/run_%s_%d.txt' % (tag.replace('_', ''), i + 1)
        y = np.loadtxt(f, ndmin=2)
        equal(list(y.shape), [x.shape[0], x.shape[1] + 3], 'rows and columns')
        close(np.delete(y, [2 + k, 3 + k, 4 + k], axis=1), x, rtol=2e-6, what='existing columns')
        for row, orig in zip(y, x):
            vals = dict(s['vals'])
            vals.update({n: v for n, v in zip(chain_names, orig[2:])})
            close(row[2 + k:5 + k], expect(vals), rtol=4e-6, atol=1e-300, what='foregrounds of the sample')
    if source == 'minimum':
        a = gdtypes.BestFit(d + '/run%s.minimum' % tag, want_fixed=True)
        equal([p.name for p in a.names], [p for kd in 'vfd' for p in s['groups'][kd]] + [n[:-1] for n in new] + s['chi'], 'parameters of best fit')
        for n, v in s['vals'].items():
            close(a.parWithName(n).best_fit, v, rtol=1e-12, what='best fit')
            equal(a.parWithName(n).label, 'L_{%s}' % n, 'label')
        close([a.parWithName(n[:-1]).best_fit for n in new], expect(s['vals']), rtol=4e-6, atol=1e-300, what='foregrounds of best fit')
        equal([int(p.number) for p in a.names], list(range(1, len(a.names) + 1)), 'numbers')
        equal([x.isFixed for x in a.names], [n in s['groups']['f'] for n in [p.name for p in a.names]], 'fixed')
        close(a.logLike, 612.3456, what='likelihood')
        equal([x[1].name for x in a.chiSquareds], ['plik_rd12 HM', 'DR12'], 'likelihoods')


# python plik likelihood

@st.composite
def pliks(draw):
    spectra = draw(st.sampled_from(['T', 'T', 'E', 'TE', 'TE', 'TEB']))
    return dict(spectra=spectra, seed=draw(seeds), mt=draw(st.integers(1, 3)), mp=draw(st.integers(1, 2)), lmin=draw(st.integers(2, 30)), nb=draw(st.integers(1, 6)),
                width=draw(st.sampled_from([1, 1, 3])), ncomp=draw(st.integers(0, 3)), mask=draw(st.sampled_from([0, 0.2, 0.5])), byname=draw(st.sampled_from(['list', 'file', 'found'])),
                pad=draw(st.integers(0, 3)), noise=draw(st.booleans()))


VERSIONS = ['plik_rd12_HM_v22_%s', 'plik_rd12_HM_v22b_%s', 'plik_dx11dr2_HM_v18_%s', 'plik_dx11dr2_DS_v18_%s', 'plik_rd12_HM_v22c_%s']


def make_plik(c, d):
    r = np.random.RandomState(c['seed'])
    sp = c['spectra']
    has = np.array([int('T' in sp), int('E' in sp), int('B' in sp), int('T' in sp and 'E' in sp), int('T' in sp and 'B' in sp), int('E' in sp and 'B' in sp)])
    nT, nP = c['mt'], c['mp']
    mt, me, mb = nT * has[0], nP * has[1], nP * has[2]
    m = mt + me + mb
    nb, w, lmin = c['nb'], c['width'], c['lmin']
    blmin, l = [], 0
    widths = [w if w == 1 else int(r.randint(1, w + 1)) for _ in range(nb)]
    for x in widths:
        blmin.append(l)
        l += x
    blmin = np.array(blmin)
    blmax = blmin + np.array(widths) - 1
    nl = l
    lmax = lmin + nl - 1
    ws = np.ones(nl)
    for a, b in zip(blmin, blmax):
        x = r.uniform(0.5, 1, size=b - a + 1)
        ws[a:b + 1] = x / x.sum()
    nspec = int(has.sum())
    bins = np.zeros((nb * nspec, nl * nspec))
    for k in range(nspec):
        for i, (a, b) in enumerate(zip(blmin, blmax)):
            bins[k * nb + i, k * nl + a:k * nl + b + 1] = ws[a:b + 1]
    field = [0] * mt + [1] * me + [2] * mb
    specs = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]
    sp_row = {x: sum(has[:i]) for i, x in enumerate(specs) if has[i]}
    oo, rows = [], []
    for i in range(m):
        for j in range(i, m):
            for b in range(nb):
                if r.uniform() < c['mask'] and not (i == j == 0):
                    continue
                oo.append(b * m * m + i * m + j)
                rows.append(sp_row[(field[i], field[j])] * nb + b)
    Jt = np.zeros((nspec * nb, len(oo)))
    Jt[rows, np.arange(len(oo))] = 1
    n = len(oo)
    a = r.normal(size=(n, n))
    siginv = a.dot(a.T) + n * np.eye(n)
    tag = {'T': 'TT', 'E': 'EE', 'TE': 'TTTEEE', 'TEB': 'TTTEEE'}[sp]
    if c['byname'] == 'found':
        ver = VERSIONS[r.randint(len(VERSIONS))]
        f = d + '/' + ver % tag + r.choice(['', '_bin1']) + '.clik'
        pfile = DATA + re.sub(r'v22[bc]', 'v22', ver) % tag + '.paramnames'
        pnames = [x.split()[0] for x in read(pfile).split('\n') if x.strip() and not x.strip().startswith('#')]
    else:
        f = d + '/data.clik'
        pnames = ['par%d' % i for i in range(r.randint(4, 9))]
        pfile = write(d + '/p.paramnames', ''.join('%s   l_{%s}  # note\n' % (x, x) for x in pnames))
    keys = ['key_%s' % x for x in pnames]
    comps = []
    for i in range(c['ncomp']):
        mm = m if (mt == 0 or m == mt or r.randint(2)) else mt
        x = r.uniform(0.5, 2, size=(mm, mm))
        comps.append(('fg%d' % i, [keys[q] for q in r.choice(len(keys), size=r.randint(0, 3), replace=False)], x + x.T, 20.))
    cal = [keys[q] for q in r.choice(len(keys), size=min(2, len(keys)), replace=False)]
    beam = [keys[q] for q in r.choice(len(keys), size=r.randint(0, 3), replace=False)]
    gcal, gbeam = r.uniform(0.9, 1.1, size=(m, m)), r.uniform(0.95, 1.05, size=(nb, m, m))
    gcal, gbeam = (gcal + gcal.T) / 2, (gbeam + gbeam.transpose(0, 2, 1)) / 2

    def fcal(v):
        return np.repeat((gcal * np.prod(v))[None, :, :], nb, axis=0)

    def fbeam(v):
        return gbeam * (1 + 0.1 * np.sum(v))

    acmb = r.uniform(0.8, 1.2, size=m)
    rqh = r.normal(size=(nb, m, m))
    rqh = (rqh + rqh.transpose(0, 2, 1)) * 30
    node = dict(bins=bins)
    file = {'clik/lkl_0': node, 'clik/lkl_0/has_cl': has, 'clik/lkl_0/lmin': lmin, 'clik/lkl_0/lmax': lmax, 'clik/lkl_0/m_channel_T': nT, 'clik/lkl_0/m_channel_P': nP,
            'clik/lkl_0/nbins': nb * nspec, 'clik/lkl_0/bin_lmin': blmin, 'clik/lkl_0/bin_lmax': blmax, 'clik/lkl_0/bin_ws': ws, 'clik/lkl_0/A_cmb': acmb,
            'clik/lkl_0/Rq_hat': rqh.flatten(), 'clik/lkl_0/criterion_gauss_mat': siginv.flatten()}
    FILES.clear()
    FILES[f] = dict(keys=keys, lmaxs=[lmax] * 6, components=comps, lmin=lmin, lmax=lmax, calls=[], like=-r.uniform(1, 5), cal=(cal, fcal), beam=(beam, fbeam), oo=oo, Jt=Jt, file=file)
    pars = {x: r.uniform(0.7, 1.4) for x in pnames}
    pars['not_used'] = 3.
    cls = CMBlikes.ClsArray()
    top = lmax + c['pad']
    arr = r.uniform(1, 5, size=(6, top + 1)) * 1000
    for (i, j), a in zip(specs[:4], arr):
        cls.cls_array[j, i] = a.copy()
    cls.lmax = top
    ls = np.arange(top + 1)
    fac = ls * (ls + 1) / 2. / np.pi
    fac[0] = 1
    cl = arr / fac
    cl[4:] = 0
    binned = np.array([[np.sum(ws[a:b + 1] * x[lmin + a:lmin + b + 1]) for a, b in zip(blmin, blmax)] for x in cl])
    g = fcal([pars[k[4:]] for k in cal]) * fbeam(np.array([pars[k[4:]] for k in beam])) * np.outer(acmb, acmb)[None]
    lfull = np.arange(lmin, lmax + 1)
    fgs = np.zeros((nb, m, m))
    for _, vp, tm, l0 in comps:
        x = np.ones(nl)
        for i, k in enumerate(vp):
            x = x * (pars[k[4:]] if i == 0 else ((lfull + 1.) / l0) ** pars[k[4:]])
        bx = np.array([np.sum(ws[a:b + 1] * x[a:b + 1]) for a, b in zip(blmin, blmax)])
        fgs[:, :tm.shape[0], :tm.shape[0]] += bx[:, None, None] * tm
    which = np.array([[specs.index((min(field[i], field[j]), max(field[i], field[j]))) for j in range(m)] for i in range(m)])
    cmb = np.array([[[binned[which[i, j], b] for j in range(m)] for i in range(m)] for b in range(nb)])
    lm = np.array([np.sum(ws[a:b + 1] * lfull[a:b + 1]) for a, b in zip(blmin, blmax)])
    return dict(f=f, pnames=pnames, pfile=pfile, pars=pars, cls=cls, cl=cl, g=g, fg=fgs, cmb=cmb, binned=binned, has=has, oo=oo, Jt=Jt, siginv=siginv, rqh=rqh, lm=lm, lmax=lmax, lmin=lmin,
                keys=keys, nb=nb, m=m, file=file, widths=widths)


def arg(c, s):
    return {'list': s['pnames'], 'file': s['pfile'], 'found': None}[c['byname']]


@case(pliks(), quick=300, thorough=4000, shards=2)
def plik_chi2(c, t):
    """chi-squared and model vector of the python plik likelihood"""
    m = load('planck.CMB_plik')
    s = make_plik(c, t.dir())
    t.nontrivial(c['spectra'] != 'T' and c['nb'] > 1)
    t.label(c['spectra'])
    like = m.plik_likelihood(s['f'], arg(c, s))
    equal(list(like.parnames), s['pnames'], 'parameters')
    close(like.lm, s['lm'], what='effective multipoles')
    got = like.chi_squared(s['cls'], s['pars'])
    close(got, -2 * FILES[s['f']]['like'], what='chi-squared from clik')
    vec = np.concatenate([x[:s['lmax'] + 1] for i, x in enumerate(s['cl']) if s['has'][i]] + [[s['pars'][n] for n in s['pnames']]])
    close(FILES[s['f']]['calls'][0], vec, rtol=1e-12, what='vector passed to clik')
    for _ in range(2):
        model = like.get_model_vector(s['cls'], s['pars'])
        want = s['g'] * (s['cmb'] + s['fg'])
        close(model, want, rtol=1e-10, what='model')
        delta = (want - s['rqh']).flat[s['oo']]
        close(like.chi_squared(s['cls'], s['pars'], clik=False), delta.dot(s['siginv']).dot(delta), rtol=1e-8, what='chi-squared')


@case(pliks(), quick=300, thorough=4000, shards=2)
def plik_coadd(c, t):
    """coadded foreground-cleaned spectra are the generalized least-squares solution for the bandpowers"""
    m = load('planck.CMB_plik')
    d = t.dir()
    s = make_plik(c, d)
    if not c['noise']:
        # data without noise
        s['rqh'] = s['g'] * (s['cmb'] + s['fg'])
        s['file']['clik/lkl_0/Rq_hat'] = s['rqh'].flatten()
    t.nontrivial(s['m'] > 1 and c['nb'] > 1)
    t.label('masked', c['mask'] > 0)
    like = m.plik_likelihood(s['f'], arg(c, s))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ls, vec, covinv = like.coadd_spectra(s['pars'])
    nspec = int(s['has'].sum())
    equal([list(ls.shape), list(vec.shape)], [[nspec, s['nb']]] * 2, 'shapes')
    close(ls, np.array([s['lm']] * nspec), what='multipoles')
    gg = s['g'].flat[s['oo']]
    J = (s['Jt'] * gg).T
    good = s['Jt'].sum(1) > 0
    J = J[:, good]
    y = (s['rqh'] - s['g'] * s['fg']).flat[s['oo']]
    F = J.T.dot(s['siginv']).dot(J)
    x = np.zeros(nspec * s['nb'])
    x[good] = np.linalg.solve(F, J.T.dot(s['siginv']).dot(y))
    sc = np.max(np.abs(x)) + 1e-30
    close(covinv, F, rtol=1e-8, atol=1e-9 * np.max(np.abs(F)), what='inverse covariance')
    close(vec.flatten() / sc, x / sc, rtol=1e-6, atol=1e-8, what='coadded spectra')
    if not c['noise']:
        want = np.concatenate([s['binned'][i] for i in range(6) if s['has'][i]]) * good
        close(vec.flatten() / sc, want / sc, rtol=1e-6, atol=1e-8, what='spectra of noise-free data')
    if s['has'][0] and c['width'] == 1:
        tt = like.coadded_TT(s['pars'], want_cov=False)
        l = np.arange(s['lmin'], s['lmax'] + 1)
        fac = l * (l + 1) / 2 / np.pi
        full = np.zeros(s['lmax'] + 1)
        full[s['lmin']:] = x[:s['nb']] * fac
        close(tt / sc, full / sc, rtol=1e-6, atol=1e-8 * np.max(fac), what='temperature spectrum')
        tt, cov = like.coadded_TT(s['pars'])
        close(tt / sc, full / sc, rtol=1e-6, atol=1e-8 * np.max(fac), what='temperature spectrum')
        want = np.linalg.inv(F)[:s['nb'], :s['nb']] * np.outer(fac, fac)
        close(cov, want, rtol=1e-6, atol=1e-8 * np.max(np.abs(want)), what='covariance of temperature spectrum')


# dumped spectra

@st.composite
def dumps(draw):
    return dict(seed=draw(seeds), n=draw(st.integers(1, 6)), nl=draw(st.integers(20, 60)), ncol=draw(st.integers(1, 4)), cal=draw(st.booleans()), rescale=draw(st.sampled_from([1, 2.5])),
                sub=draw(st.booleans()), lpow=draw(st.sampled_from([2, 0, 4, 3])), delta=draw(st.booleans()), sign=draw(st.sampled_from(['pos', 'neg', 'mixed'])),
                max_files=draw(st.sampled_from([400, 400, 2])), colors=draw(st.booleans()), lmax=draw(st.integers(15, 20)))


def make_dump(c, d):
    r = np.random.RandomState(c['seed'])
    ls = np.arange(2, 2 + c['nl'])
    items = {}
    off = {'pos': 10, 'neg': -10, 'mixed': 0}[c['sign']]
    for i in range(c['n']):
        root = '%s/dump_%d_%d' % (d, 1 + i % 3, 1 + i // 3)
        cal, x = r.uniform(0.9, 1.1), r.uniform(0, 5)
        cl = np.hstack([ls[:, None], r.uniform(-3, 3, size=(len(ls), c['ncol'])) + off])
        np.savetxt(root + '.theory_cl', cl)
        write(root + '.pars', ' weight = 2.0\n -log(Like) =   10.0\n chi-sq    =   20.0\n\n%5d%15.7E   %-22s%s\n%5d%15.7E   %-22s%s\n\n\n' % (1, x, 'xx', 'X_x', 2, cal, 'calp', 'c'))
        items['%.7E' % x] = (float('%.7E' % x), float('%.7E' % cal), cl)
    # files of other runs
    for other in ('dump2_1_1', 'dump_1', 'dump_12_1', 'other_1_1'):
        np.savetxt('%s/%s.theory_cl' % (d, other), cl * 7)
        write('%s/%s.pars' % (d, other), ' -log(Like) =   10.0\n chi-sq    =   20.0\n\n%5d%15.7E   %-22s%s\n\n\n' % (1, 77., 'xx', 'X_x'))
    return ls, items


def dump_module():
    plt.close('all')
    import chainDumpPlot
    return importlib.reload(chainDumpPlot)


@contextlib.contextmanager
def within(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


@case(dumps(), quick=80, thorough=1200, shards=2)
def dumped_spectra(c, t):
    """spectra of every dumped sample with its own parameters, as lines coloured by the parameter"""
    m = dump_module()
    d = t.dir()
    ls, items = make_dump(c, d)
    t.nontrivial(len(items) > 1)
    col = 1 + c['seed'] % c['ncol']
    kw = dict(cl_ix=col, rescale=c['rescale'], max_files=c['max_files'])
    if c['cal']:
        kw['calParam'] = 'calp'
    with within(d):
        gl, pars, cls = m.loadFiles('dump' if c['sub'] else d + '/dump', **kw)
    close(gl, ls, what='multipoles')
    equal(len(pars), min(len(items), c['max_files']), 'number of samples')
    equal(len(cls), len(pars), 'number of spectra')
    equal(len({p.parWithName('xx').best_fit for p in pars}), len(pars), 'samples')
    want = []
    for p, cl in zip(pars, cls):
        x, cal, full = items['%.7E' % p.parWithName('xx').best_fit]
        w = full[:, col] * c['rescale'] / (cal ** 2 if c['cal'] else 1)
        close(cl, w, rtol=1e-9, what='spectrum of the sample')
        want.append(w)
    assert raises(m.loadFiles, d + '/nothing'), 'no files'
    ref = want[0] * 0.9 if c['delta'] else None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        plt.figure()
        smap, norm = m.rainbowLinePlot(gl, pars, cls, 'xx', lpow=c['lpow'], delta_to=ref)
        ax = plt.gcf().axes[0]
        lines = [x for x in ax.lines if len(x.get_xdata()) == len(ls)]
        equal(len(lines), len(pars), 'number of lines')
        for line, p, w in zip(lines, pars, want):
            close(line.get_xdata(), ls, what='multipoles of line')
            close(line.get_ydata(), (w - (ref if c['delta'] else 0)) * (ls * (ls + 1.)) ** (c['lpow'] / 2. - 1), rtol=1e-9, what='line')
            if len(pars) > 1:
                close(line.get_color(), smap.to_rgba(p.parWithName('xx').best_fit), what='colour')
        vals = [p.parWithName('xx').best_fit for p in pars]
        if len(pars) > 1:
            equal([norm.vmin, norm.vmax], [min(vals), max(vals)], 'colour range')
        if c['colors'] and len(pars) > 1:
            plt.figure()
            m.rainbowLinePlot(gl, pars[1:], cls[1:], 'xx', last_colors=(smap, norm))
            close(plt.gcf().axes[0].lines[0].get_color(), smap.to_rgba(vals[1]), what='colour with given scale')
    plt.close('all')


@case(dumps(), quick=60, thorough=800, shards=4)
def dumped_density(c, t):
    """density plot covers the spectra of the samples and nothing else"""
    m = dump_module()
    d = t.dir()
    ls, items = make_dump(c, d)
    t.nontrivial(len(items) > 1)
    t.label(c['sign'])
    L = c['lmax']
    ls, pars, cls = m.loadFiles(d + '/dump')
    ref = cls[0] * 0.9 if c['delta'] else None
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        plt.figure()
        m.rainbowDensityPlot(ls, pars, cls, 'xx', lpow=c['lpow'], Lmax=L, delta_to=ref)
        ax = plt.gcf().axes[0]
        im = ax.images[0]
    z = np.array(im.get_array())
    x0, x1, y0, y1 = im.get_extent()
    equal(im.origin, 'lower', 'origin')
    equal([x0, x1], [2, L], 'multipoles')
    want = np.array([(cl - (ref if c['delta'] else 0)) * (ls * (ls + 1.)) ** (c['lpow'] / 2. - 1) for cl in cls])[:, :L - 1]
    ny, nx = z.shape[:2]
    equal(nx, L - 1, 'columns')
    h = (y1 - y0) / ny
    y = y0 + (np.arange(ny) + 0.5) * h
    alpha = z[:, :, 3]
    for j in range(nx):
        near = want[:, max(0, j - 6):j + 7].flatten()
        on = y[alpha[:, j] > 0]
        dist = np.min(np.abs(on[:, None] - near[None, :]), axis=1)
        assert np.all(dist < 8 * h), 'density at %g where no spectrum is (nearest %g away, bins of %g)' % (on[np.argmax(dist)], np.max(dist), h)
        for v in want[:, j]:
            i = int(np.clip((v - y0) / h, 0, ny - 1))
            assert y0 - h <= v <= y1 + h, 'spectrum %g outside range of plot %g - %g' % (v, y0, y1)
            assert np.max(alpha[max(0, i - 2):i + 3, j]) > 0, 'no density at spectrum %g, L=%d' % (v, j + 2)
    if len(items) == 1:
        col = m.getColorMap([pars[0].parWithName('xx').best_fit])[0].to_rgba(pars[0].parWithName('xx').best_fit)
        close(z[alpha > 0][0][:3], col[:3], atol=1e-6, what='colour')
    plt.close('all')


# latex

@st.composite
def margestats(draw):
    names = draw(name_list(1, 6))
    return dict(seed=draw(seeds), names=names, kinds=[draw(st.sampled_from(['two', 'two', '>', '<', 'none'])) for _ in names], absent=draw(st.booleans()), pick=draw(st.sampled_from(['all', 'some', 'extra'])),
                limit=draw(st.sampled_from([1, 2])), mode=draw(st.sampled_from(['plain', 'tabular', 'files'])), root=draw(st.sampled_from(['base', 'base_x', 'base_n3.046', 'r.1.2'])),
                ext=draw(st.booleans()), over=draw(st.booleans()))


@case(margestats(), quick=150, thorough=2500, shards=2)
def latex(c, t):
    """makeLatex: constraint of each requested parameter, in order, to the screen or to one file each"""
    r = np.random.RandomState(c['seed'])
    d = t.dir()
    rows, par = [], {}
    for n, k in zip(c['names'], c['kinds']):
        mean, err = float('%.3f' % r.uniform(1, 20)), float('%.3f' % r.uniform(0.1, 0.9))
        lims = [(mean - q * err, mean + q * err * 1.5) for q in (1, 2)]
        par[n] = (mean, err, lims, k)
        rows.append('%-15s %15.7E %15.7E ' % (n, mean, err) + ''.join('%15.7E %15.7E %6s ' % (a, b, k) for a, b in lims) + '  L_{%s}' % n)
    write(d + '/%s.margestats' % c['root'], 'Marginalized limits: 0.68; 0.95\n\nparameter  mean sddev ...\n' + '\n'.join(rows) + '\n')
    pn = write(d + '/lab.paramnames', ''.join('%s %s_{%s}\n' % (n, 'M' if c['over'] else 'L', n) for n in c['names']))
    names = c['names']
    args = [d + '/' + c['root'] + ('.margestats' if c['ext'] else ''), '--limit', str(c['limit']), '--paramNameFile', pn]
    if c['pick'] != 'all':
        names = [names[i] for i in r.permutation(len(names))][:max(1, len(names) - 1)]
        ask = list(names)
        if c['pick'] == 'extra':
            ask.insert(r.randint(len(ask) + 1), 'not_there')
        args += ['--params'] + ask
    t.nontrivial(len(names) > 1)
    t.label(c['mode'])
    if c['mode'] == 'tabular':
        args += ['--tabular']
    if c['mode'] == 'files':
        args += ['--tex_snippet_dir', d + '/out']
    out = run_script('makeLatex.py', args)

    def check(text, n):
        mean, err, lims, k = par[n]
        a, b = lims[c['limit'] - 1]
        text = text.strip()
        if n.startswith('chi2'):
            assert '%.1f' % mean in text or '%.2f' % mean in text or '%.0f' % mean in text, 'chi2 %s: %s' % (mean, text)
            return
        nums = [float(x) for x in re.findall(r'[-+]?[\d.]+', text)]
        if k == 'none':
            equal(text, '---', 'unconstrained')
        elif k == '>':
            equal(text[0], '<', 'upper limit')
            close(nums[0], b, rtol=6e-3, what='upper limit')
        elif k == '<':
            equal(text[0], '>', 'lower limit')
            close(nums[0], a, rtol=6e-3, what='lower limit')
        else:
            equal(len(nums), 3, 'numbers of %r' % text)
            close(nums, [mean, b - mean, a - mean], rtol=0, atol=0.06, what='mean and errors')

    lab = 'M' if c['over'] else 'L'
    if c['mode'] == 'files':
        equal(sorted(os.listdir(d + '/out')), sorted('%s-%s_sig%d.tex' % (c['root'], n, c['limit']) for n in names), 'files')
        for n in names:
            check(read(d + '/out/%s-%s_sig%d.tex' % (c['root'], n, c['limit'])), n)
        return
    lines = [x for x in out.split('\n') if x.strip()]
    equal(len(lines), len(names), 'lines')
    for line, n in zip(lines, names):
        if c['mode'] == 'tabular':
            assert line.rstrip().endswith('\\\\'), 'row end'
            left, right = line.rstrip()[:-2].split('&')
            math = par[n][3] != 'none' or n.startswith('chi2')
            equal(right.count('$'), 2 if math else 0, 'dollars')
            equal(left.replace('$', '').strip(), '%s_{%s}' % (lab, n), 'label')
            check(right.replace('$', ''), n)
        else:
            left, right = line.split(None, 1)
            equal(left, '%s_{%s}' % (lab, n), 'label')
            check(right, n)


# smoothing

@case(st.tuples(seeds, st.integers(1, 120), st.integers(2, 14), st.booleans()), quick=400)
def smoothing(c, t):
    """smoothing keeps constants and symmetry, and is the normalized gaussian average"""
    seed, n, smooth, two = c
    r = np.random.RandomState(seed)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = importlib.import_module('planck.smoothing')
        x = r.normal(size=n)
        y = m.gaussian_smooth_1d(x, smooth)
        equal(list(y.shape), [n], 'shape')
        t.nontrivial(n > 5 * smooth)
        close(m.gaussian_smooth_1d(np.full(n, 3.), smooth), np.full(n, 3.), what='constant')
        close(m.gaussian_smooth_1d(x[::-1], smooth), y[::-1], rtol=1e-9, atol=1e-12, what='reversed data')
        d = np.arange(n)[:, None] - np.arange(n)[None, :]
        G = np.exp(-d ** 2 / 2. / smooth ** 2)
        # window is cut between nsigma/2 widths and just beyond
        lo, hi = G * (np.abs(d) <= 2.5 * smooth - 1), G * (np.abs(d) <= 2.5 * smooth + 1)
        lim = [(w * x[None, :]).sum(1) / w.sum(1) for w in (lo, hi)]
        tol = 6 * np.exp(-2.5 ** 2 / 2.) / smooth * 2 + 0.02
        assert np.all(np.abs(y - lim[0]) <= np.abs(lim[1] - lim[0]) + tol), 'gaussian average'
        k = n // 2
        e = np.zeros(n)
        e[k] = 1
        z = m.gaussian_smooth_1d(e, smooth)
        if n > 5 * smooth + 4:
            equal(int(np.argmax(z)), k, 'peak')
            ramp = m.gaussian_smooth_1d(np.arange(n) * 1., smooth)
            i = slice(3 * smooth, n - 3 * smooth)
            close(ramp[i], np.arange(n)[i], rtol=1e-9, what='linear')
        if two:
            a = r.normal(size=(n, n))
            cov = a.dot(a.T)
            orig = cov.copy()
            s = m.smoothed_cov(cov, smooth)
            equal(cov.tolist(), orig.tolist(), 'input')
            W = np.array([m.gaussian_smooth_1d(np.eye(n)[i], smooth) for i in range(n)]).T
            close(s, W.dot(cov).dot(W.T), rtol=1e-7, atol=1e-9 * np.max(np.abs(cov)), what='rows and columns smoothed')
            close(s, s.T, rtol=1e-7, atol=1e-9 * np.max(np.abs(cov)), what='symmetric')


# CAMB parameters

class Recorder:
    def __init__(self):
        self.got = {}

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*args, **kw):
            assert not args or name == 'set_for_lmax'
            self.got.setdefault(name, {}).update(kw)

        return f


class CambPars(Recorder):
    def __init__(self):
        Recorder.__init__(self)
        self.InitPower, self.NonLinearModel = Recorder(), Recorder()


MAP = {'H0': 'H0', 'omegabh2': 'ombh2', 'omegach2': 'omch2', 'mnu': 'mnu', 'omegak': 'omk', 'tau': 'tau', 'deltazrei': 'deltazrei', 'nnu': 'nnu', 'yheused': 'YHe', 'meffsterile': 'meffsterile'}
POWER = {'ns': 'ns', 'r': 'r', 'nrun': 'nrun', 'nrunrun': 'nrunrun'}
DEFAULTS = {'mnu': 0.06, 'omegak': 0, 'deltazrei': None, 'nnu': 3.046, 'yheused': None, 'meffsterile': 0, 'r': 0, 'nrun': 0, 'nrunrun': 0, 'w': -1}


@case(st.tuples(seeds, st.lists(st.sampled_from(sorted(DEFAULTS)), unique=True), st.sampled_from(['', '', '', 'wa', 'alpha1', 'Alens', 'Aphiphi']), st.booleans(), st.booleans()), quick=300)
def camb_parameters(c, t):
    """CAMB parameters of a dictionary of CosmoMC values"""
    seed, given, other, default, use = c
    r = np.random.RandomState(seed)
    camb = pytypes.ModuleType('camb')
    camb.CAMBparams = CambPars
    camb.model = camb.initialpower = pytypes.ModuleType('camb.model')
    camb.__file__ = '/none/camb.py'
    old = {k: sys.modules.get(k) for k in ('camb', 'camb.model', 'camb.initialpower')}
    sys.modules.update({'camb': camb, 'camb.model': camb.model, 'camb.initialpower': camb.model})
    try:
        sys.modules.pop('cosmomc_to_camb', None)
        with contextlib.redirect_stdout(io.StringIO()):
            m = importlib.import_module('cosmomc_to_camb')
    finally:
        for k, v in old.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
        sys.modules.pop('cosmomc_to_camb', None)
    p = {k: float(r.uniform(0.1, 3)) for k in ['H0', 'omegabh2', 'omegach2', 'tau', 'ns', 'A'] + given}
    t.nontrivial(len(given) > 1)
    base = {'wa': 0, 'alpha1': 0, 'Alens': 1, 'Aphiphi': 1}
    if other:
        p[other] = base[other] if default else 0.37
        if not default:
            assert raises(m.get_camb_params, p), 'unsupported parameter %s' % other
            return
    mine = CambPars()
    orig = dict(p)
    kw = dict(num_massive_neutrinos=2, neutrino_hierarchy='normal', halofit_version='takahashi') if use else {}
    got = m.get_camb_params(p, inpars=mine if use else None, **kw)
    assert (got is mine) == use, 'given parameter object'
    equal(p, orig, 'input')
    full = dict(DEFAULTS)
    full.update(p)
    cosmo = got.got['set_cosmology']
    for k, v in MAP.items():
        equal(cosmo.get(v), full[k], 'parameter %s' % k)
    equal(cosmo['num_massive_neutrinos'], 2 if use else 1, 'neutrinos')
    equal(cosmo['neutrino_hierarchy'], 'normal' if use else 'degenerate', 'hierarchy')
    power = got.InitPower.got['set_params']
    for k, v in POWER.items():
        equal(power.get(v), full[k], 'parameter %s' % k)
    close(power['As'], p['A'] * 1e-9, rtol=1e-14, what='amplitude')
    equal(got.got['set_dark_energy']['w'], full['w'], 'w')
    equal(got.NonLinearModel.got['set_params']['halofit_version'], 'takahashi' if use else 'mead', 'halofit')
    assert 'set_for_lmax' in got.got


# foregrounds for the runs of a grid

SETTINGS = """
from paramgrid import batchjob
ini_dir = %r
defaults = []
importanceDefaults = []
g = batchjob.jobGroup('main')
g.datasets = [%s]
g.params = [[]]
g.importanceRuns = []
groups = [g]
"""
_count = [0]


@case(st.tuples(runs(), st.lists(st.tuples(st.sampled_from(['plik', 'plik', 'plikTE', 'plikEE', 'other']), st.booleans(), st.booleans(), st.booleans()), min_size=1, max_size=3),
                st.booleans(), st.sampled_from(['grid', 'plik_grid'])), quick=40, thorough=600, shards=4)
def grid_foregrounds(c, t):
    """plikParams: foregrounds are added once to each plik run of the grid, and to nothing else"""
    spec, jobs, finished, dirname = c
    d = t.dir()
    from paramgrid import gridconfig
    load('planck.plik_postprocess')
    _count[0] += 1
    names = ['%s%d' % (j[0] if j[0] != 'other' else 'lowl', i) for i, j in enumerate(jobs)]
    write(d + '/x.ini', '')
    f = write(d + '/sett%d.py' % _count[0], SETTINGS % (d, ', '.join("batchjob.dataSet(['%s'], ['x.ini'])" % n for n in names)))
    loader = importlib.util.spec_from_file_location('sett%d' % _count[0], f)
    settings = importlib.util.module_from_spec(loader)
    loader.loader.exec_module(settings)
    g = d + '/' + dirname
    with contextlib.redirect_stdout(io.StringIO()):
        batch = gridconfig.makeGrid(g, settings=settings)
    os.makedirs(d + '/data')
    s = setup(dict(spec, pol='T'), d, need_chi2=True)
    FILES['./data/plik.clik'] = FILES[s['clik']]
    FILES['./data/plikTE.clik'] = dict(FILES[s['clik']], lmaxs=[-1, 2508] + [-1] * 4)
    FILES['./data/plikEE.clik'] = FILES['./data/plikTE.clik']
    write(d + '/data/plik.paramnames', read(d + '/plik.paramnames'))
    chain_names = s['groups']['v'] + s['groups']['d'] + s['chi']
    derived = s['groups']['d'] + s['chi']
    before, items = {}, {x.data_set.names[0]: x for x in batch.items()}
    equal(sorted(items), sorted(names), 'jobs')
    for (kind, minim, done, fin), n in zip(jobs, names):
        root = items[n].chainRoot
        write(root + '.paramnames', ''.join('%s%s\tL_{%s}\n' % (x, '*' * (x in derived), x) for x in chain_names))
        write(root + '.ranges', ''.join('%s %s %s\n' % (x, s['vals'][x], s['vals'][x] + (x in s['groups']['v'])) for x in s['groups']['v'] + s['groups']['f']))
        if minim:
            write(root + '.minimum', minimum(s))
        if fin:
            write(root + '.converge_stat', '  0.005\n Done\n')
        write(root + '.inputparams', '' if kind == 'other' else 'clik_data_%s = %%DATASETDIR%%%s.clik\nclik_params_%s = %%DATASETDIR%%plik.paramnames\n' % (kind, kind, kind))
        if done:
            write(root + '.properties.ini', 'plik_foregrounds = T\nburn_removed = T\n')
        for i in range(spec['nchain']):
            x = np.hstack([np.ones((spec['rows'], 2)), s['r'].uniform(0.1, 2, size=(spec['rows'], len(chain_names)))])
            np.savetxt(root + '_%d.txt' % (i + 1), x, fmt='%16.7E')

    def files():
        out = {}
        for n in names:
            p = items[n].chainPath
            out[n] = {x: read(p + x) for x in sorted(os.listdir(p))}
        return out

    before = files()
    for again in (False, True):
        old, argv = os.getcwd(), sys.argv
        os.chdir(d)
        sys.argv = ['plikParams', g] + (['--finished'] if finished else [])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                runpy.run_module('planck.plikParams', run_name='__main__')
        finally:
            os.chdir(old)
            sys.argv = argv
        after = files()
        if again:
            equal(after, last, 'files after running again')
        last = after
    n_changed = 0
    for (kind, minim, done, fin), n in zip(jobs, names):
        a, b = before[n], after[n]
        job = items[n]
        if kind == 'other' or done or (finished and not fin):
            equal(sorted(b), sorted(a), 'files of %s' % n)
            equal(b, a, 'run %s' % n)
            continue
        n_changed += 1
        assert job.propertiesIni().bool('plik_foregrounds', False), 'run is not marked'
        name = job.name
        equal(name + '.minimum.plik_foregrounds' in b, minim, 'foreground spectra')
        star = [x + '*' * (x in derived) for x in chain_names]
        k = len(star) - len(s['chi'])
        new = ['f2000_143*', 'f2000_x*', 'f2000_217*'] if kind == 'plik' else []
        equal(parse_names(b[name + '.paramnames']), star[:k] + new + star[k:], 'parameters')
        for i in range(spec['nchain']):
            x, y = [np.loadtxt(io.StringIO(q[name + '_%d.txt' % (i + 1)]), ndmin=2) for q in (a, b)]
            close(y[:, [j for j in range(y.shape[1]) if not 2 + k <= j < 2 + k + len(new)]], x, rtol=2e-6, what='existing columns')
            if new:
                vals = dict(s['vals'])
                vals.update(zip(chain_names, x[-1, 2:]))
                F = foreground(s, vals, np.array([2000]), 3)[0] * 2000 * 2001 / 2 / np.pi
                close(y[-1, 2 + k:5 + k], [F[1, 1], F[1, 2], F[2, 2]], rtol=4e-6, atol=1e-300, what='foregrounds')
        if minim:
            fit = gdtypes.BestFit(job.chainRoot + '.minimum', want_fixed=True)
            equal(('f2000_x' in fit.list()), kind == 'plik', 'best fit')
    t.nontrivial(0 < n_changed and (len(jobs) > 1))
