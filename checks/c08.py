import os
import numpy as np
from hypothesis import strategies as st
from vlib import case, close, equal, raises
import samp
from gen import seeds
from getdist.chains import WeightedSamples, Chains
from getdist import MCSamples

RULE = ('histories of up to 8 edits (filter by mask/indices, importance re-weighting, cooling, zero/low weight removal, burn '
        'removal, thinning, adding parameters, dropping constant ones, copying, settings updates) on 1-4 chains, compared '
        'with a row-by-row model after every edit; non-trivial: >=2 edits that change rows, weights or columns')
ASSUMPTIONS = ['densities are only compared for at least 25 rows', 'at least 4 rows with positive weight remain', 'likelihood ranges keep relative weights above 1e-300']


def row_set(m):
    return np.array([r['x'] for r in m['rows']])


class Model:
    def __init__(self, names):
        self.names = list(names)
        self.rows = []  # dict(chain, w, L, x)
        self.split = True
        self.nchains = 0
        self.fixed = {}

    def copy(self):
        m = Model(self.names)
        m.rows = [dict(r, x=list(r['x'])) for r in self.rows]
        m.split, m.nchains, m.fixed = self.split, self.nchains, dict(self.fixed)
        return m

    def w(self):
        return np.array([r['w'] for r in self.rows])

    def x(self):
        return np.array([r['x'] for r in self.rows]).reshape(len(self.rows), len(self.names))

    def L(self):
        return None if self.rows[0]['L'] is None else np.array([r['L'] for r in self.rows])

    def keep(self, ix):
        self.rows = [dict(self.rows[i], x=list(self.rows[i]['x'])) for i in ix]
        ch = [r['chain'] for r in self.rows]
        if any(b < a for a, b in zip(ch[:-1], ch[1:])):
            self.split = False

    def min_ratio(self, ratio=1e-30):
        w = self.w()
        if w.min() < w.max() * ratio:
            self.keep([i for i, v in enumerate(w) if v > w.max() * ratio])

    def drop_fixed(self):
        x = self.x()
        fixed = [i for i in range(len(self.names)) if np.ptp(x[:, i]) == 0]
        for i in fixed:
            self.fixed[self.names[i]] = x[0, i]
        for r in self.rows:
            r['x'] = [v for i, v in enumerate(r['x']) if i not in fixed]
        self.names = [n for i, n in enumerate(self.names) if i not in fixed]
        self.min_ratio()


OPS = st.one_of(
    st.tuples(st.just('mask'), st.floats(0.3, 0.95), seeds),
    st.tuples(st.just('indices'), st.booleans(), seeds),
    st.tuples(st.just('reweight'), st.sampled_from([0.5, 3., 20., 200.]), seeds),
    st.tuples(st.just('cool'), st.sampled_from([0.5, 0.9, 1.5, 2.])),
    st.tuples(st.just('delete_zeros')),
    st.tuples(st.just('min_ratio'), st.sampled_from([1e-30, 1e-3, 0.1, 0.5])),
    st.tuples(st.just('burn'), st.sampled_from([0.1, 0.25, 0.5, 1, 3])),
    st.tuples(st.just('burn_frac'), st.sampled_from([0.1, 0.3])),
    st.tuples(st.just('thin'), st.integers(1, 4)),
    st.tuples(st.just('weighted_thin'), st.integers(1, 4)),
    st.tuples(st.just('add'), st.sampled_from(['new1', 'new2', 'x']), st.sampled_from(['sum', 'const', 'square'])),
    st.tuples(st.just('delete_fixed')),
    st.tuples(st.just('copy')),
    st.tuples(st.just('settings'), st.sampled_from([dict(num_bins=50), dict(contours='0.5 0.9'), {}])),
    st.tuples(st.just('touch')),
)


@st.composite
def histories(draw):
    nch = draw(st.integers(1, 4))
    chains = [draw(samp.specs(min_rows=8, max_rows=30, weights=(w,), loglikes=False, min_d=1, max_d=1,
                              kinds=('normal', 'ties', 'walk', 'offset', 'const')))
              for w in [draw(st.sampled_from(['unit', 'int', 'float', 'zeros']))] * nch]
    return dict(chains=chains, d=draw(st.integers(1, 3)), likes=draw(st.booleans()),
                as_list=draw(st.booleans()) or nch > 1, ignore=draw(st.sampled_from([0, 0, 0, 0.2, 0.5, 3])),
                cls=draw(st.sampled_from(['mc', 'mc', 'chains'])),
                ops=draw(st.lists(OPS, max_size=8)))


def build(c):
    model = Model(samp.NAMES[:c['d']])
    xs, ws, ls = [], [], []
    for k, spec in enumerate(c['chains']):
        spec = dict(spec, d=c['d'], loglikes=True)
        x, w, ll, _ = samp.make(spec)
        xs.append(x)
        ws.append(w)
        ls.append(ll)
    unit = ws[0] is None
    for k, (x, w, ll) in enumerate(zip(xs, ws, ls)):
        n = len(x)
        rows = [dict(chain=k, w=1. if unit else w[i], L=ll[i] if c['likes'] else None, x=list(x[i])) for i in range(n)]
        ign = c['ignore']
        # rows are skipped, zero weights dropped, in each chain
        if ign >= 1:
            rows = rows[int(ign):]
        wmax = max(r['w'] for r in rows)
        if wmax == 0:
            return None, None
        if min(r['w'] for r in rows) < wmax * 1e-30:
            rows = [r for r in rows if r['w'] > wmax * 1e-30]
        if 0 < ign < 1:
            rows = rows[int(round(len(rows) * ign)):]
        if len(rows) < 3:
            return None, None
        model.rows += rows
    model.nchains = len(xs)
    model.split = c['as_list']
    cp = lambda l: [a.copy() for a in l]
    if c['as_list']:
        arg = (cp(xs), None if unit else cp(ws), cp(ls) if c['likes'] else None)
    else:
        arg = (xs[0].copy(), None if unit else ws[0].copy(), ls[0].copy() if c['likes'] else None)
    names = samp.NAMES[:c['d']]
    if c['cls'] == 'mc':
        s = MCSamples(samples=arg[0], weights=arg[1], loglikes=arg[2], names=names, settings={'ignore_rows': c['ignore']})
        model.drop_fixed()
    else:
        s = Chains(names=names, ignore_rows=c['ignore'])
        s.loadChains('', arg[0], weights=arg[1], loglikes=arg[2])
        s.min_weight_ratio = 1e-30
        if s.chains is not None:
            s.makeSingle()
    return s, model


def compare(s, m, note, full=True):
    equal(s.paramNames.list(), m.names, 'parameters ' + note)
    x, w, L = m.x(), m.w(), m.L()
    equal(s.samples.shape, x.shape, 'number of rows and parameters ' + note)
    close(s.samples, x, rtol=1e-13, what='samples ' + note)
    close(s.weights, w, rtol=1e-11, what='weights ' + note)
    if L is None:
        assert s.loglikes is None, 'likelihoods appeared ' + note
    else:
        close(s.loglikes, L, rtol=1e-12, what='likelihoods ' + note)
    equal([s.numrows, s.n], list(x.shape), 'stored shape ' + note)
    close(s.get_norm(), w.sum(), rtol=1e-11, what='norm ' + note)
    if not full:
        return
    sc = max(1e-9, np.abs(x).max() if x.size else 0)
    if x.shape[1]:
        close(s.getMeans(), w.dot(x) / w.sum(), rtol=1e-9, atol=1e-11 * sc, what='means ' + note)
        cov = samp.ref_cov(list(x.T), w)
        close(s.getCov(), cov, rtol=1e-7, atol=1e-10 * sc ** 2, what='covariance ' + note)
        close(s.getVars(), np.diag(cov), rtol=1e-7, atol=1e-10 * sc ** 2, what='variances ' + note)
        for i, n in enumerate(m.names):
            close(s[n], x[:, i], rtol=1e-13, what='parameter by name ' + note)
            close(s.mean(n), w.dot(x[:, i]) / w.sum(), rtol=1e-9, atol=1e-11 * sc, what='mean by name ' + note)
            close(s.var(i), cov[i, i], rtol=1e-7, atol=1e-10 * sc ** 2, what='variance by index ' + note)
            close(s.mean_diff(i), x[:, i] - w.dot(x[:, i]) / w.sum(), rtol=1e-9, atol=1e-10 * sc, what='differences from the mean ' + note)
            close(s.std(n), np.sqrt(cov[i, i]), rtol=1e-6, atol=1e-5 * sc, what='std by name ' + note)
        p = s.getParams()
        for i, n in enumerate(m.names):
            o = p
            for part in n.split('.'):
                o = getattr(o, part)
            close(getattr(o, 'value', o), x[:, i], rtol=1e-13, what='parameter attribute ' + note)
    if L is not None:
        d = s.getParamSampleDict(len(w) - 1)
        equal(list(d), ['weight', 'loglike'] + m.names + (list(m.fixed) if isinstance(s, MCSamples) else []), 'names in sample dictionary ' + note)
        if isinstance(s, MCSamples):
            close([d[k] for k in m.fixed], list(m.fixed.values()), what='fixed values in sample dictionary ' + note)
        close([d[k] for k in ['weight', 'loglike'] + m.names], [w[-1], L[-1]] + list(x[-1]), rtol=1e-11,
              what='sample dictionary ' + note)
    if m.split:
        sep = s.getSeparateChains()
        # chains from which every row was removed may be reported as empty
        equal(len(sep), m.nchains, 'number of chains ' + note)
        for k, ch in enumerate(sep):
            rows = [i for i, r in enumerate(m.rows) if r['chain'] == k]
            if not len(rows):
                equal(len(ch.samples), 0, 'rows in emptied chain')
                continue
            wk = w[rows]
            if wk.max() == 0 or wk.min() < wk.max() * 1e-30:
                continue
            close(ch.samples, x[rows], rtol=1e-13, what='chain %d samples %s' % (k, note))
            close(ch.weights, wk, rtol=1e-11, what='chain %d weights %s' % (k, note))
            if L is not None:
                close(ch.loglikes, L[rows], rtol=1e-12, what='chain %d likelihoods %s' % (k, note))


def unit_positions(w, f):
    return np.repeat(np.arange(len(w)), np.round(w).astype(int))[f - 1::f]


def chains_ok(m, rows):
    """edits are only made if every chain keeps rows (an emptied chain has no statistics)"""
    if len(rows) < 4:
        return False
    have = {m.rows[i]['chain'] for i in rows if m.rows[i]['w'] > 0}
    return not m.split or len(have) == m.nchains


def relevant_rows(m, ratio=1e-30):
    w = m.w()
    return [i for i, v in enumerate(w) if v > w.max() * ratio]


def apply(op, s, m, c):
    """apply op to both; returns the sample object to continue with, or None if op is not applicable"""
    kind = op[0]
    n = len(m.rows)
    w = m.w()
    if kind == 'mask':
        mask = np.random.RandomState(op[2]).uniform(size=n) < op[1]
        ix = np.flatnonzero(mask)
        if not chains_ok(m, ix):
            return None
        s.filter(mask)
        m.keep(ix)
    elif kind == 'indices':
        r = np.random.RandomState(op[2])
        ix = np.sort(r.choice(n, size=max(4, (2 * n) // 3), replace=False)) if op[1] else r.permutation(n)[:max(4, n // 2)]
        if not chains_ok(m, ix):
            return None
        s.filter(ix)
        m.keep(ix)
    elif kind == 'reweight':
        dL = np.random.RandomState(op[2]).uniform(0, op[1], size=n) + 5
        new = w * np.exp(-(dL - dL.min()))
        good = [i for i in range(n) if new[i] > new.max() * 1e-30]
        if not chains_ok(m, good):
            return None
        s.reweightAddingLogLikes(dL)
        close(s.weights / s.weights.max(), new / new.max(), rtol=1e-9, atol=1e-300, what='re-weighted weights')
        for r, d, v in zip(m.rows, dL, s.weights):
            r['w'] = v
            if r['L'] is not None:
                r['L'] += d
    elif kind == 'cool':
        if m.L() is None:
            return None
        L = m.L()
        if np.ptp(L) * abs(op[1] - 1) > 300:
            return None
        new = w * np.exp(-(L - L.min()) * (op[1] - 1))
        good = [i for i in range(n) if new[i] > new.max() * 1e-30]
        if not chains_ok(m, good):
            return None
        s.cool(op[1])
        close(s.weights / s.weights.max(), new / new.max(), rtol=1e-9, atol=1e-300, what='cooled weights')
        for r, v in zip(m.rows, s.weights):
            r['w'] = v
            r['L'] *= op[1]
    elif kind == 'delete_zeros':
        s.deleteZeros()
        m.keep(np.flatnonzero(w > 0))
    elif kind == 'min_ratio':
        ix = np.flatnonzero(w > w.max() * op[1])
        near = np.any(np.abs(w - w.max() * op[1]) < 1e-9 * w.max() * op[1])
        if near or not chains_ok(m, ix):
            return None
        s.setMinWeightRatio(op[1])
        if w.min() < w.max() * op[1]:
            m.keep(ix)
    elif kind in ('burn', 'burn_frac'):
        k = int(op[1]) if op[1] >= 1 else int(round(n * op[1]))
        ix = np.arange(n)[k:]
        good = [i for i in ix if w[i] > w[ix].max() * 1e-30] if len(ix) else []
        if not chains_ok(m, good):
            return None
        (s.removeBurn if kind == 'burn' else s.removeBurnFraction)(op[1])
        m.keep(ix)
        m.min_ratio()
    elif kind in ('thin', 'weighted_thin'):
        if np.any(w != np.round(w)) or w.max() > 1000:
            return None
        f = op[1]
        if kind == 'thin':
            ix = [int(i) for i in s.thin_indices(f)]
            ref = [int(i) for i in unit_positions(w, f)]
            assert ix == ref or ix == [0] + ref, 'thinned rows'
            if not chains_ok(m, ix):
                return None
            s.thin(f)
            rows = [dict(m.rows[i], w=1., x=list(m.rows[i]['x'])) for i in ix]
        else:
            groups = [[i for i in range(n) if m.rows[i]['chain'] == k] for k in range(m.nchains)] if m.split \
                else [list(range(n))]
            rows = []
            for g in groups:
                ix = [int(i) for i in WeightedSamples.thin_indices_single_samples(f, w[g])]
                ref = [int(i) for i in unit_positions(w[g], f)]
                assert ix == ref or ix == [0] + ref, 'thinned rows'
                u, cnt = np.unique(ix, return_counts=True)
                if len(u) < 2:
                    return None
                rows += [dict(m.rows[g[i]], w=float(v), x=list(m.rows[g[i]]['x'])) for i, v in zip(u, cnt)]
            if len(rows) < 4:
                return None
            s.weighted_thin(f)
        m.rows = rows
    elif kind == 'add':
        x = m.x()
        if not x.shape[1] or op[1] in m.fixed:
            return None
        vec = dict(sum=x.sum(axis=1) * 2 + 1, const=np.full(n, 2.5), square=x[:, 0] ** 2 + np.arange(n))[op[2]]
        if op[1] in m.names:
            assert raises(s.addDerived, vec, op[1]), 'duplicate parameter name accepted'
            return None
        good = relevant_rows(m)
        if not chains_ok(m, good):
            return None
        p = s.addDerived(vec, op[1], label='l', comment='c')
        equal([p.name, p.label, p.isDerived], [op[1], 'l', True], 'added parameter')
        for r, v in zip(m.rows, vec):
            r['x'].append(v)
        m.names.append(op[1])
        m.min_ratio()
    elif kind == 'delete_fixed':
        good = relevant_rows(m)
        x = m.x()
        if not chains_ok(m, good) or np.all(np.ptp(x, axis=0) == 0):
            return None
        s.deleteFixedParams()
        m.drop_fixed()
    elif kind == 'settings':
        if c['cls'] != 'mc' or not m.names:
            return None
        s.updateSettings(dict(op[1]))
    elif kind == 'touch':
        # reading results between edits must not freeze them
        s.getMeans(), s.getCov(), s.getVars(), s.getCorrelationMatrix()
        if m.names:
            s.setDiffs()
            s.mean(m.names[0]), s.confidence(m.names[0], 0.3)
    return s


@case(histories(), quick=1600, shards=4)
def edits(c, t):
    s, m = build(c)
    if s is None or len(m.rows) < 4 or not m.names:
        t.label('too small')
        return
    compare(s, m, 'as loaded')
    frozen = []
    done = 0
    for op in c['ops']:
        if not m.names:
            break
        if op[0] == 'copy':
            if c['cls'] != 'mc':
                continue
            frozen.append((s, m.copy()))
            s = s.copy()
            compare(s, m, 'after copy')
            continue
        if apply(op, s, m, c) is None:
            continue
        t.label(op[0])
        done += op[0] not in ('touch', 'settings')
        compare(s, m, 'after ' + op[0])
    t.nontrivial(done >= 2)
    for o, mm in frozen:
        compare(o, mm, 'of the original after editing its copy')
    if c['cls'] == 'mc':
        for n, v in m.fixed.items():
            close(s.ranges.fixedValue(n), v, what='fixed value of removed parameter')
    # results derived later agree with a fresh analysis of the same rows
    if c['cls'] == 'mc' and len(m.rows) >= 25 and not np.any(np.ptp(m.x(), axis=0) == 0):
        L = m.L()
        # a fixed smoothing width: the automatic one may jump on rounding errors for so few samples
        s.updateSettings({'smooth_scale_1D': 0.3})
        fresh = MCSamples(samples=m.x(), weights=m.w().copy(), loglikes=L, names=m.names, ranges=s.ranges,
                          settings=dict({k: v for k, v in s.ini.params.items()}, ignore_rows=0))
        if len(fresh.samples) == len(s.samples):
            t.label('fresh analysis')
            for n in m.names:
                a, b = s.getMargeStats().parWithName(n), fresh.getMargeStats().parWithName(n)
                close([a.mean, a.err], [b.mean, b.err], rtol=1e-7, atol=1e-9, what='summary of ' + n)
                close([l.lower for l in a.limits] + [l.upper for l in a.limits],
                      [l.lower for l in b.limits] + [l.upper for l in b.limits], rtol=1e-6,
                      atol=1e-6 * max(1e-9, b.err), what='limits of ' + n)
            if L is not None:
                la, lb = s.getLikeStats(), fresh.getLikeStats()
                close([la.logLike_sample, la.meanLogLike], [lb.logLike_sample, lb.meanLogLike], what='likelihood summary')


@case(histories(), quick=400)
def separate_chains(c, t):
    """burn removal and fixed-parameter removal before the chains are combined act on every chain"""
    c = dict(c, cls='chains', as_list=True, ignore=0)
    s, m = build(c)
    if s is None:
        return
    # rebuild, uncombined
    s = Chains(names=samp.NAMES[:c['d']])
    xs, ws, ls = [], [], []
    for spec in c['chains']:
        x, w, ll, _ = samp.make(dict(spec, d=c['d'], loglikes=True))
        xs.append(x), ws.append(w), ls.append(ll)
    s.loadChains('', [x.copy() for x in xs], weights=None if ws[0] is None else [w.copy() for w in ws],
                 loglikes=[l.copy() for l in ls])
    burn = [0.3, 0.5, 2][len(c['ops']) % 3]
    per = []
    for k in range(m.nchains):
        rows = [r for r in m.rows if r['chain'] == k]
        n = int(burn) if burn >= 1 else int(round(len(rows) * burn))
        rows = rows[n:]
        if len(rows) < 2:
            return
        per.append(rows)
    t.nontrivial(m.nchains > 1)
    s.removeBurnFraction(burn)
    for rows, ch in zip(per, s.getSeparateChains()):
        close(ch.samples, np.array([r['x'] for r in rows]), what='chain after burn removal')
        close(ch.weights, [r['w'] for r in rows], what='weights after burn removal')
    allx = np.array([r['x'] for rows in per for r in rows])
    varying = [i for i in range(c['d']) if np.ptp(allx[:, i]) > 0]
    s.deleteFixedParams()
    equal(s.paramNames.list(), [samp.NAMES[i] for i in varying], 'varying parameters')
    for rows, ch in zip(per, s.getSeparateChains()):
        close(ch.samples, np.array([r['x'] for r in rows])[:, varying], what='chain without fixed parameters')
    t.label('fixed in some chain only',
            any(np.ptp(np.array([r['x'] for r in rows])[:, i]) == 0 for i in varying for rows in per))
    s.makeSingle()
    close(s.samples, allx[:, varying], what='combined samples')
    assert s.chains is None
    equal(len(s.getSeparateChains()), m.nchains, 'number of chains')


QUERIES = dict(
    covmat=lambda s: s.getCovMat().matrix,
    # (the number of independent samples is added once convergence tests were run)
    summary=lambda s: '\n'.join(l for l in s.getNumSampleSummaryText().splitlines() if 'indep' not in l),
    converge=lambda s: s.getConvergeTests(what=('MeanVar', 'GelmanRubin', 'SplitTest', 'CorrLengths')),
    marge=lambda s: str(s.getMargeStats()),
    like=lambda s: str(s.getLikeStats()),
    table=lambda s: s.getTable().tableTex(),
    latex=lambda s: s.getInlineLatex(s.paramNames.list()[-1], limit=2),
    pca=lambda s: s.PCA(s.paramNames.list()[:2]),
    pairs=lambda s: s.getCorrelatedVariable2DPlots(),
    bounds=lambda s: (sorted(s.getBounds().lower.items()), sorted(s.getBounds().upper.items())),
    limits=lambda s: [(s.getUpper(n), s.getLower(n)) for n in s.paramNames.list()],
    density=lambda s: s.get1DDensity(s.paramNames.list()[0]).P,
    density2=lambda s: s.get2DDensity(s.paramNames.list()[0], s.paramNames.list()[1], fine_bins_2D=64, smooth_scale_2D=0.4).P,
    n_eff=lambda s: np.array([s.getEffectiveSamples(), s.getEffectiveSamplesGaussianKDE(s.paramNames.list()[0])]),
    corr=lambda s: s.getCorrelationMatrix(),
    means=lambda s: np.array([s.getMeans(), s.getVars()]),
    var=lambda s: np.array([s.var(0), s.std(1), s.mean_diff(1)[3], s.getCorrelationLength(0), s.cov([0, 1])[0, 1]]),
    diffs=lambda s: np.array(s.setDiffs()[1]),
    tails=lambda s: np.array(s.twoTailLimits(s.paramNames.list()[1], 0.6)),
    chains=lambda s: np.array([c.mean(0) for c in s.getSeparateChains()]),
)

EDIT = st.one_of(
    st.tuples(st.just('filter'), st.integers(0, 1), st.floats(-1, 0.5)), st.tuples(st.just('ix'), seeds), st.tuples(st.just('reweight'), seeds),
    st.tuples(st.just('cool'), st.floats(0.5, 2)), st.tuples(st.just('thin'), st.integers(2, 3)), st.tuples(st.just('add'), st.sampled_from(['q', 'r'])),
    st.tuples(st.just('range'), st.integers(0, 1), st.sampled_from([(None, 6.), (-6., None), (-3.5, 3.5), (-50., 50.)])),
    st.tuples(st.just('contours'), st.sampled_from([[0.5, 0.9], [0.68, 0.95, 0.99]])), st.tuples(st.just('burn'), st.just(0.1)),
    st.tuples(st.just('ask'), st.lists(st.sampled_from(sorted(QUERIES)), min_size=1, max_size=4)),
    st.tuples(st.just('ask'), st.just(sorted(QUERIES))), st.tuples(st.just('copy')))


@case(st.tuples(seeds, st.lists(EDIT, min_size=1, max_size=6), st.booleans()), quick=250, shards=2)
def results(c, t):
    """results asked for at any point of a history are those of a new analysis of the current rows"""
    seed, ops, two = c
    r = np.random.RandomState(seed)
    n = 300
    x = r.normal(size=(n, 3))
    x[:, 1] += 0.5 * x[:, 0]
    x = np.clip(x, -3.4, 3.4)
    w = r.randint(1, 4, size=n).astype(float)
    L = (x ** 2).sum(axis=1) / 2 + 1
    settings = {'ignore_rows': 0, 'smooth_scale_1D': 0.3}
    cut = 130 if two else n

    def make(x, w, L, names, ranges, settings, cut):
        split = [slice(0, cut), slice(cut, None)][:1 + two]
        return MCSamples(samples=[x[k].copy() for k in split], weights=[w[k].copy() for k in split], loglikes=[L[k].copy() for k in split],
                         names=names, ranges=ranges, settings=dict(settings))

    names = ['x', 'y', 'z']
    s = make(x, w, L, names, {'x': [-3.45, None]}, settings, cut)
    edited = asked = 0
    for op in ops:
        k = op[0]
        rows = s.samples.shape[0]
        if k == 'filter':
            mask = s.samples[:, op[1]] > op[2]
            if mask.sum() < 90:
                continue
            s.filter(mask)
        elif k == 'ix':
            if rows < 150:
                continue
            s.filter(np.sort(np.random.RandomState(op[1]).choice(rows, rows - 40, replace=False)))
        elif k == 'reweight':
            s.reweightAddingLogLikes(np.random.RandomState(op[1]).uniform(0, 1, size=rows) + s.samples[:, 1])
        elif k == 'cool':
            s.cool(op[1])
        elif k == 'thin':
            if np.any(s.weights != np.round(s.weights)) or s.weights.sum() < 100 * op[1]:
                continue
            s.weighted_thin(op[1])
        elif k == 'add':
            if op[1] in s.paramNames.list():
                continue
            s.addDerived(s['x'] * 2 - s['y'], op[1], label=op[1], range=(-40, None))
        elif k == 'range':
            s.setRanges({['y', 'z'][op[1]]: op[2]})
        elif k == 'contours':
            s.updateSettings({'contours': op[1]})
        elif k == 'burn':
            if rows < 150 or two:
                continue
            s.removeBurn(op[1])
        elif k == 'copy':
            s = s.copy()
        elif k == 'ask':
            for q in op[1]:
                raises(QUERIES[q], s)  # some are undefined with too few effective samples; compared with new samples below
            asked += 1
            continue
        edited += 1
        t.label(k)
    t.nontrivial(edited and asked)
    lens = [len(ch.samples) for ch in s.getSeparateChains()] if two else [len(s.samples)]
    if min(lens) < 30 or s.weights.min() < 1e-20 * s.weights.max():
        t.label('few left')
        return
    fresh = make(s.samples, s.weights, s.loglikes, s.paramNames.list(), s.ranges, s.ini.params, lens[0])
    fresh.paramNames = copy_names(s, fresh)
    fresh.updateBaseStatistics()
    # in any order
    want = {}
    for q in r.permutation(sorted(QUERIES)):
        try:
            want[q] = QUERIES[q](fresh)
        except Exception as e:
            want[q] = e
    for q in r.permutation(sorted(QUERIES)):
        f, b = QUERIES[q], want[q]
        if isinstance(b, Exception):
            if raises(f, s):
                continue
            raise AssertionError('%s fails for new samples only (%s)' % (q, b))
        a = f(s)
        if isinstance(b, np.ndarray):
            close(a, b, rtol=1e-7, atol=1e-9, what=q + ' after edits')
        elif isinstance(b, str):
            same_text(a, b, q + ' after edits')
        else:
            equal(a, b, q + ' after edits')


def same_text(a, b, what):
    """equal up to rounding of printed numbers"""
    a, b = a.split(), b.split()
    equal(len(a), len(b), 'length of ' + what)
    for u, v in zip(a, b):
        if u != v:
            try:
                # integers may be truncated from 138.9999
                close(float(u), float(v), rtol=2e-3, atol=1 if u.isdigit() and v.isdigit() else 2e-5, what=what)
            except ValueError:
                raise AssertionError('%s: got %s, expected %s' % (what, u, v))


def copy_names(s, fresh):
    for p, q in zip(s.paramNames.names, fresh.paramNames.names):
        q.label, q.isDerived = p.label, p.isDerived
    return fresh.paramNames
