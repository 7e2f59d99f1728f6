"""CMB .dataset likelihoods: chi-squared of theory spectra given the bandpowers, windows, covariances and noise of a dataset."""
import contextlib
import io
import math
import os
import numpy as np
from hypothesis import strategies as st
import matplotlib
matplotlib.use('Agg')
from matplotlib import pyplot as plt
from vlib import case, close, equal, raises, write
import gen
import CMBlikes
from CMBlikes import ClsArray, DatasetLikelihood
from makePerfectForecastDataset import make_forecast_cmb_dataset

RULE = ('a generated .dataset with its files (or one of those in /repo/data with generated restrictions); non-trivial: more than one spectrum or bin takes part, '
        'or some maps or bins are left out')
ASSUMPTIONS = ['the likelihood definitions are those of source/CMBlikes.f90', 'foreground hooks are only exercised by a trivial subclass']

DATA = os.path.normpath(os.path.join(os.path.dirname(CMBlikes.__file__), '..', 'data')) + os.sep
FIELDS = 'TEBP'


def quiet(f, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kwargs)


# ---------------------------------------------------------------- reference

def read_dataset(fname):
    out, defaults = {}, {}
    with open(fname) as f:
        for line in f:
            line = line.strip()
            if line.startswith('DEFAULT(') or line.startswith('INCLUDE('):
                defaults.update(read_dataset(os.path.join(os.path.dirname(fname), line[8:-1])))
            elif line and line[0] != '#' and '=' in line:
                k, v = line.split('=', 1)
                out[k.strip()] = v.strip()
    return dict(defaults, **out)


class Ref:
    """Straightforward reading of the files; spectra are dictionaries keyed by (unordered) pairs of map names."""

    def __init__(self, fname, params=None):
        self.dir = os.path.dirname(fname)
        self.p = {}
        self.p.update(read_dataset(fname))
        self.p.update({k: str(v) for k, v in (params or {}).items()})
        p = self.p
        self.names = p.get('map_names', '').split()
        self.named = bool(self.names)
        if self.named:
            self.field = dict(zip(self.names, p['map_fields'].split()))
        else:
            self.names = list(FIELDS)
            self.field = {x: x for x in FIELDS}
        use = p.get('fields_use', '').split()
        self.used = [m for m in self.names if not use or self.field[m] in use]
        if p.get('maps_use', '').split():
            self.used = [m for m in self.names if m in p['maps_use'].split()]
        extra = p.get('maps_required' if self.named else 'fields_required', '').split()
        self.required = [m for m in self.names if m in self.used or m in extra]
        self.lmin, self.lmax = int(p['cl_lmin']), int(p['cl_lmax'])
        self.L = np.arange(self.lmin, self.lmax + 1)
        self.binned = self.flag('binned', True)
        self.approx = p.get('like_approx', 'gaussian')
        if self.binned:
            self.bins = list(range(int(p.get('use_min') or 1), int(p.get('use_max') or p['nbins']) + 1))
        else:
            self.bins = list(range(int(p.get('use_min') or self.lmin), int(p.get('use_max') or self.lmax) + 1))
        self.hat = self.matrices('cl_hat')
        has_noise = self.flag('cl_hat_includes_noise', False)
        self.noise = self.matrices('cl_noise') if self.approx != 'gaussian' or has_noise else None
        self.fid = self.matrices('cl_fiducial') if self.approx == 'HL' else None
        for b in self.bins:
            if self.noise is not None and not has_noise:
                self.hat[b] += self.noise[b]
            if self.noise is not None and has_noise and self.approx == 'gaussian':
                self.hat[b] -= self.noise[b]
            if self.fid is not None and not self.flag('cl_fiducial_includes_noise', False):
                self.fid[b] += self.noise[b]
        if self.approx == 'gaussian':
            self.noise = None
        if self.binned:
            self.windows = self.read_windows('bin_window')
        self.corr = None
        if 'linear_correction_fiducial_file' in p:
            self.corr = self.read_windows('linear_correction_bin_window')
            self.corr_fid = self.matrices('linear_correction_fiducial')
        self.calib = None
        if p.get('calibration_param'):
            with open(os.path.join(self.dir, p['calibration_param'])) as f:
                self.calib = f.readline().split()[0].rstrip('*')
        elif p.get('nuisance_params'):
            self.calib = p.get('calibration_paramname') or None
        self.calib_prior = float(p.get('log_calibration_prior', -1)) if self.calib else -1.
        self.aberration = float(p.get('aberration_coeff', 0))
        if self.approx != 'exact':
            pairs = [self.pair(x) for x in p['covmat_cl'].split()]
            full = np.loadtxt(os.path.join(self.dir, p['covmat_fiducial'])) * float(p.get('covmat_scale', 1))
            full = np.atleast_2d(full)
            self.keep = [(b, q) for b in self.bins for q in pairs if q <= frozenset(self.used)]
            ix = [(b - 1) * len(pairs) + pairs.index(q) for b, q in self.keep]
            self.cov = full[np.ix_(ix, ix)]

    def flag(self, key, default):
        return self.p[key].strip().lower() in ('t', 'true', 'yes', '1', '.true.') if key in self.p else default

    def pair(self, s):
        return frozenset(s.split('x') if self.named else s)

    def matrices(self, stem):
        """nmaps x nmaps matrix for each bin, zero where no column is given"""
        fname = os.path.join(self.dir, self.p[stem + '_file'])
        order = self.p.get(stem + '_order', '')
        if order:
            cols = ['L'] + order.split()
        else:
            with open(fname) as f:
                heads = []
                for line in f:
                    if line.strip() and line.strip()[0] != '#':
                        break
                    if line.strip():
                        heads.append(line.strip()[1:].split())
            cols = heads[-1]
        rows = {int(float(r[0])): r for r in np.atleast_2d(np.loadtxt(fname))}
        out = {}
        for b in self.bins:
            M = np.zeros((len(self.used),) * 2)
            for i, m in enumerate(self.used):
                for j, n in enumerate(self.used):
                    for c, name in enumerate(cols):
                        if name in ((m + 'x' + n, n + 'x' + m) if self.named else (m + n, n + m)):
                            M[i, j] = rows[b][c]
            out[b] = M
        return out

    def read_windows(self, stem):
        pin = [self.pair(x) for x in self.p[stem + '_in_order'].split()]
        pout = [self.pair(x) for x in self.p[stem + '_out_order'].split()] if self.p.get(stem + '_out_order') else pin
        assert len(pin) == len(pout)
        res = {}
        for b in self.bins:
            dat = np.atleast_2d(np.loadtxt(os.path.join(self.dir, self.p[stem + '_files'] % b)))
            W = np.zeros((len(pin), len(self.L)))
            for row in dat:
                if self.lmin <= row[0] <= self.lmax:
                    W[:, int(row[0]) - self.lmin] = row[1:]
            res[b] = (pin, pout, W)
        return res

    def theory_map(self, q, theory, params):
        f = [self.field[m] for m in q]
        if len(f) == 1:
            f = f * 2
        cl = theory.get(frozenset(f))
        if cl is None:
            return np.zeros(len(self.L))
        cl = cl[self.lmin:self.lmax + 1].copy()
        if 'P' not in f:
            if self.aberration:
                norm = self.L * (self.L + 1.)
                c = cl / norm
                d = np.array([(c[i + 1] - c[i - 1]) / 2 for i in range(1, len(c) - 1)])
                d = np.concatenate([d[:1], d, d[-1:]])
                cl = cl + self.aberration * self.L * norm * d
            if self.calib and self.calib in params:
                cl = cl / params[self.calib] ** 2
        return cl

    def binned_theory(self, windows, b, theory, params):
        pin, pout, W = windows[b]
        M = np.zeros((len(self.used),) * 2)
        for q, r, w in zip(pin, pout, W):
            if not r <= frozenset(self.used):
                continue
            v = float(w @ self.theory_map(q, theory, params))
            i, j = [self.used.index(m) for m in (list(r) * 2)[:2]]
            M[i, j] += v
            if i != j:
                M[j, i] += v
        return M

    def prediction(self, b, theory, params):
        if not self.binned:
            return np.array([[self.theory_map(frozenset((m, n)), theory, params)[b - self.lmin] for m in self.used] for n in self.used])
        M = self.binned_theory(self.windows, b, theory, params)
        if self.corr:
            M += self.binned_theory(self.corr, b, theory, params) - self.corr_fid[b]
        return M

    def chi2(self, theory, params):
        """value and numerical scale (sum of magnitudes)"""
        tot = 0.
        X, scale = {}, {}
        for b in self.bins:
            C = self.prediction(b, theory, params)
            if self.noise is not None:
                C = C + self.noise[b]
            H = self.hat[b]
            if self.approx == 'exact':
                ev = np.linalg.eigvals(np.linalg.solve(C, H))
                tot += (2 * b + 1) * float(self.p['fullsky_exact_fksy']) * float(np.sum((ev - 1 - np.log(ev)).real))
                continue
            if self.approx == 'HL':
                ch = symf(C, lambda x: x ** -0.5)
                M = ch @ H @ ch
                fh = symf(self.fid[b], np.sqrt)
                # vary the root: U g(D) U^T is the same for any square root up to rotation
                Y = fh @ symf(M, g) @ fh
            else:
                Y = C - H
            for i, m in enumerate(self.used):
                for j, n in enumerate(self.used):
                    X[b, frozenset((m, n))] = Y[i, j]
                    scale[b, frozenset((m, n))] = abs(C[i, j]) + abs(H[i, j])
        s = 0.
        if self.approx != 'exact':
            v = np.array([X[k] for k in self.keep])
            w = np.array([scale[k] for k in self.keep])
            inv = np.linalg.inv(self.cov)
            tot = float(v @ np.linalg.solve(self.cov, v))
            s = float(np.abs(v) @ np.abs(inv) @ w)
        if self.calib_prior > 0:
            tot += (math.log(params[self.calib]) / self.calib_prior) ** 2
        return tot, s


def symf(M, f):
    w, v = np.linalg.eigh(M)
    return (v * f(w)) @ v.T


def g(x):
    return np.sign(x - 1) * np.sqrt(2 * np.maximum(0, x - np.log(x) - 1))


# ---------------------------------------------------------------- generated datasets

def theories(rng, lmax, cols, lmin=2, corr=0.3):
    """spectra with positive definite matrices for any selection of columns"""
    out = {}
    for c in cols:
        cl = np.zeros(lmax + 1)
        cl[lmin:] = rng.uniform(1, 3, lmax + 1 - lmin) if c[0] == c[1] else rng.uniform(-corr, corr, lmax + 1 - lmin)
        out[frozenset(c)] = cl
    return out


def cl_file(path, L, cols, values, header=True):
    with open(path, 'w') as f:
        if header:
            f.write('# some text\n#    L ' + ' '.join(cols) + '\n')
        for i, l in enumerate(L):
            f.write('%d ' % l + ' '.join(repr(float(v[i])) for v in values) + '\n')
    return path


ALL_COLS = ['TT', 'EE', 'BB', 'PP', 'TE', 'TB', 'EB', 'TP', 'EP', 'BP']


@st.composite
def datasets(draw):
    named = draw(st.booleans())
    approx = draw(st.sampled_from(['gaussian', 'gaussian', 'HL', 'exact']))
    d = dict(named=named, approx=approx, seed=draw(gen.seeds))
    if named:
        d['fields'] = draw(st.lists(st.sampled_from(FIELDS), min_size=1, max_size=4))
        names = ['m%d%s' % (i, f) for i, f in enumerate(d['fields'])]
        d['names'] = draw(st.permutations(names))
        d['fields'] = [x[-1] for x in d['names']]
    else:
        d['names'] = list(FIELDS)
        d['fields'] = list(FIELDS)
    n = len(d['names'])
    d['use'] = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1, max_size=3)))
    d['use_how'] = draw(st.sampled_from(['maps_use', 'fields_use', 'both'])) if named else draw(st.sampled_from(['fields_use', 'fields_use', 'maps_use', 'both']))
    d['required'] = [] if approx == 'exact' else sorted(draw(st.sets(st.integers(0, n - 1), max_size=2)))
    d['lmin'] = draw(st.integers(2, 4))
    d['lmax'] = d['lmin'] + draw(st.integers(4, 15))
    d['nbins'] = draw(st.integers(1, 4))
    nb = d['nbins'] if approx != 'exact' else d['lmax'] - d['lmin'] + 1
    lo = draw(st.integers(0, nb - 1))
    d['use_min'] = draw(st.sampled_from([None, lo]))
    d['use_max'] = draw(st.sampled_from([None, draw(st.integers(lo, nb - 1))]))
    d['override'] = draw(st.booleans())
    d['leak'] = draw(st.integers(0, 3))
    d['own_windows'] = draw(st.booleans())
    d['drop'] = draw(st.integers(0, 2))
    d['hat_noise'] = draw(st.booleans())
    d['fid_noise'] = draw(st.booleans())
    d['order_key'] = draw(st.booleans())
    d['correction'] = draw(st.sampled_from([0, 0, 1, 2])) if approx != 'exact' else 0
    d['scale'] = draw(st.sampled_from([None, 0.5, 2.3]))
    d['calib'] = draw(st.sampled_from([None, None, 'file', 'nuisance', 'nuisance_none']))
    d['calib_value'] = draw(st.sampled_from([None, 1.0, 0.9, 1.07]))
    d['calib_prior'] = draw(st.sampled_from([None, 0.02, 1.5]))
    d['aberration'] = draw(st.sampled_from([None, None, 0.01, -0.02]))
    d['theory'] = sorted(draw(st.sets(st.sampled_from(ALL_COLS), min_size=4, max_size=10)))
    d['theory_lmax'] = d['lmax'] + draw(st.integers(0, 3))
    d['outside'] = draw(st.booleans())
    return d


def pd_matrices(rng, n, nb, corr=0.9):
    """diagonally dominant matrices"""
    out = []
    for _ in range(nb):
        M = rng.uniform(-1, 1, (n, n)) * corr / max(1, n)
        M = (M + M.T) / 2
        M[np.diag_indices(n)] = rng.uniform(1, 3, n)
        out.append(M)
    return np.array(out)


def make_dataset(d, folder):
    rng = np.random.default_rng(d['seed'])
    names, n = d['names'], len(d['names'])
    ini = {}
    sep = 'x' if d['named'] else ''
    if d['named']:
        ini['map_names'] = ' '.join(names)
        ini['map_fields'] = ' '.join(d['fields'])
    used = [names[i] for i in d['use']]
    if d['use_how'] == 'fields_use':
        fs = sorted(set(d['fields'][i] for i in d['use']))
        ini['fields_use'] = ' '.join(rng.permutation(fs))
        used = [m for m, f in zip(names, d['fields']) if f in fs]
    else:
        ini['maps_use'] = ' '.join(rng.permutation(used))
        if d['use_how'] == 'both' or not d['named']:
            ini['fields_use'] = ' '.join(rng.permutation(list(FIELDS)))
    required = set(used)
    if d['required']:
        extra = [names[i] for i in d['required']]
        ini['maps_required' if d['named'] else 'fields_required'] = ' '.join(rng.permutation(extra))
        required |= set(extra)
    required = [m for m in names if m in required]

    def spell(p):
        p = list(p) * 2 if len(p) == 1 else list(p)
        if rng.random() < .5:
            p = p[::-1]
        return sep.join(p[:2])

    def pairs(ms):
        return [(a,) if a == b else (a, b) for i, a in enumerate(ms) for b in ms[:i + 1]]

    all_pairs = pairs(names)
    lmin, lmax = d['lmin'], d['lmax']
    ini.update(cl_lmin=lmin, cl_lmax=lmax, like_approx=d['approx'])
    over = {}
    tgt = over if d['override'] else ini
    exact = d['approx'] == 'exact'
    nb = lmax - lmin + 1 if exact else d['nbins']
    first = lmin if exact else 1
    if d['use_min'] is not None:
        tgt['use_min'] = first + d['use_min']
    if d['use_max'] is not None:
        tgt['use_max'] = first + d['use_max']
    if d['override']:
        ini['cl_lmax'], over['cl_lmax'] = 100000, lmax
    rows = np.arange(first, first + nb)

    def spectra_file(stem, mats, drop=0, extra=True):
        order = list(all_pairs)
        if drop:
            off = [p for p in order if len(p) == 2]
            for i in rng.permutation(len(off))[:drop]:
                order.remove(off[i])
        order = [order[i] for i in rng.permutation(len(order))]
        cols = [spell(p) for p in order]
        vals = [mats[:, names.index(p[0]), names.index(p[-1])] for p in order]
        if extra and not d['order_key']:
            k = int(rng.integers(0, len(cols) + 1))
            cols.insert(k, 'L_av')
            vals.insert(k, rows * 10.)
        cl_file(os.path.join(folder, stem + '.dat'), rows, cols, vals, header=not d['order_key'])
        ini[stem + '_file'] = stem + '.dat'
        if d['order_key']:
            ini[stem + '_order'] = ' '.join(cols)

    hl = d['approx'] == 'HL'
    big = 1. if d['own_windows'] or d['leak'] or d['correction'] else 0.
    spectra_file('cl_hat', pd_matrices(rng, n, nb) + (12. * big * np.eye(n) if hl and d['hat_noise'] else 0), d['drop'])
    if exact or hl or d['hat_noise']:
        spectra_file('cl_noise', pd_matrices(rng, n, nb, .5) * rng.choice([.1, 1]) + 8. * big * np.eye(n))
    ini['cl_hat_includes_noise'] = 'T' if d['hat_noise'] else 'F'
    if hl:
        spectra_file('cl_fiducial', pd_matrices(rng, n, nb))
        ini['cl_fiducial_includes_noise'] = 'T' if d['fid_noise'] else 'F'
    if exact:
        ini['binned'] = 'F'
        ini['fullsky_exact_fksy'] = 0.7
    else:
        ini['nbins'] = nb

        def windows(stem, entries, amp, shared):
            ini[stem + '_in_order'] = ' '.join(spell(a) for a, _ in entries)
            if [set(a) for a, _ in entries] != [set(b) for _, b in entries] or rng.random() < .5:
                ini[stem + '_out_order'] = ' '.join(spell(b) for _, b in entries)
            os.mkdir(os.path.join(folder, stem))
            for b in range(nb):
                L = np.arange(lmin, lmax + 1) if not d['outside'] else np.arange(lmin - 1, lmax + 3)
                L = np.sort(rng.choice(L, size=max(2, len(L) - 2), replace=False))
                w = rng.uniform(0, amp, (1 if shared else len(entries), len(L))) / len(L)
                w = np.broadcast_to(w, (len(entries), len(L)))
                cl_file(os.path.join(folder, stem, 'w%d.dat' % (b + 1)), L, [], w, header=False)
            ini[stem + '_files'] = stem + '/w%u.dat'

        up, rp = pairs(used), pairs(required)
        entries = [(p, p) for p in up]
        if d['drop'] == 2 and not hl and len(entries) > 1:
            entries = entries[:-1] if rng.random() < .5 else entries[1:]
        elif rng.random() < .3:
            entries += [(p, p) for p in rp if p not in up]
        for _ in range(d['leak']):
            entries.append((rp[rng.integers(len(rp))], all_pairs[rng.integers(len(all_pairs))] if rng.random() < .3 else up[rng.integers(len(up))]))
        entries = [entries[i] for i in rng.permutation(len(entries))]
        windows('bin_window', entries, 1., not d['own_windows'])
        if d['correction']:
            sel = [up[i] for i in rng.permutation(len(up))[:max(1, len(up) - (d['correction'] - 1))]]
            windows('linear_correction_bin_window', [(rp[rng.integers(len(rp))], p) for p in sel for _ in range(int(rng.integers(1, 3)))], .3, False)
            spectra_file('linear_correction_fiducial', pd_matrices(rng, n, nb) * .1, d['drop'])
        cov = [p for p in all_pairs if p in up or rng.random() < .5]
        for i in rng.permutation(len(up))[:int(rng.integers(0, len(up)))]:
            cov.remove(up[i])
        cov = [cov[i] for i in rng.permutation(len(cov))]
        ini['covmat_cl'] = ' '.join(spell(p) for p in cov)
        m = len(cov) * nb
        A = rng.normal(size=(m, m))
        C = A @ A.T / m + np.diag(rng.uniform(.5, 2, m))
        np.savetxt(os.path.join(folder, 'cov.txt'), C)
        ini['covmat_fiducial'] = 'cov.txt'
        if d['scale'] is not None:
            ini['covmat_scale'] = d['scale']
    data_params = {'other': 3.}
    if d['calib'] == 'file':
        write(os.path.join(folder, 'cal.paramnames'), 'cal\tc\nother\to\n')
        ini['calibration_param'] = 'cal.paramnames'
    elif d['calib']:
        write(os.path.join(folder, 'nuis.paramnames'), 'other\to\ncal\tc\n')
        ini['nuisance_params'] = 'nuis.paramnames'
        if d['calib'] == 'nuisance':
            ini['calibration_paramname'] = 'cal'
    if d['calib']:
        if d['calib_prior']:
            ini['log_calibration_prior'] = d['calib_prior']
        v = d['calib_value']
        if v is None and d['calib_prior']:
            v = 1.2
        if v is not None:
            data_params['cal'] = v
    if d['aberration'] is not None:
        ini['aberration_coeff'] = d['aberration'] / lmax
    text = '\n'.join('%s = %s' % kv for kv in ini.items()) + '\n'
    cols = [d['theory'][i] for i in rng.permutation(len(d['theory']))]
    cols = [c if rng.random() < .7 else c[::-1] for c in cols]
    theory = theories(rng, d['theory_lmax'], cols, corr=.2)
    if hl or exact:
        # auto spectra always there
        for c in ('TT', 'EE', 'BB', 'PP'):
            if c not in cols:
                cols.append(c)
        theory = theories(rng, d['theory_lmax'], cols, corr=.2)
    L = np.arange(2, d['theory_lmax'] + 1)
    tf = cl_file(os.path.join(folder, 'theory.dat'), L, cols, [theory[frozenset(c)][2:] for c in cols])
    return write(os.path.join(folder, 'x.dataset'), text), over, data_params, tf, theory, used, required


@case(datasets(), quick=1000, thorough=30000, shards=4)
def chi_squared(d, t):
    folder = t.dir()
    fname, over, params, tf, theory, used, required = make_dataset(d, folder)
    ref = Ref(fname, over)
    equal(ref.used, used, 'used maps of the reference')
    like = quiet(DatasetLikelihood, fname, over)
    cls = ClsArray(tf)
    want, scale = ref.chi2(theory, params)
    got = like.chi_squared(cls, params)
    t.nontrivial(len(used) > 1 or len(ref.bins) > 1)
    t.label(d['approx'])
    t.label('required maps', len(required) > len(used))
    t.label('fewer bins', len(ref.bins) < d['nbins'])
    t.label('linear correction', ref.corr is not None)
    t.label('spectra left out of covmat', d['approx'] != 'exact' and len(ref.keep) < len(ref.bins) * len(used) * (len(used) + 1) // 2)
    assert np.isfinite(want)
    tol = dict(rtol=1e-7, atol=1e-10 * max(1, scale))
    close(got, want, what='chi squared', **tol)
    close(like.chi_squared(cls, params), want, what='chi squared, again', **tol)
    if ref.binned:
        c2, binned = like.chi_squared(cls, params, return_binned_theory=True)
        close(c2, want, what='chi squared with theory', **tol)
        expect = []
        for b in ref.bins:
            M = ref.prediction(b, theory, params)
            expect.append([M[i, j] for i in range(len(used)) for j in range(i + 1)])
        close(binned, expect, rtol=1e-10, atol=1e-12, what='binned theory')
        close(like.get_binned_theory(cls, params), expect, rtol=1e-10, atol=1e-12, what='get_binned_theory')
    # spectra of the caller are untouched
    for k, v in theory.items():
        i = [FIELDS.index(c) for c in (list(k) * 2)[:2]]
        equal(list(cls.get(i)), list(v), 'theory spectrum ' + ''.join(k))
        equal(list(cls.get(i[::-1])), list(v), 'theory spectrum, other order')


@case(datasets(), quick=150, thorough=3000)
def perfect_theory(d, t):
    """Data replaced by the prediction: chi squared is zero, and it is positive if one used bandpower is changed."""
    d = dict(d, calib_prior=None, hat_noise=False, order_key=False)
    if d['approx'] == 'gaussian':
        d['hat_noise'] = False
    folder = t.dir()
    fname, over, params, tf, theory, used, required = make_dataset(d, folder)
    ref = Ref(fname, over)
    names = ref.names
    pairs = [(a, b) for i, a in enumerate(used) for b in used[:i + 1]]
    cols = [('x' if ref.named else '').join(p) for p in pairs]
    rng = np.random.default_rng(d['seed'] + 1)
    perm = rng.permutation(len(pairs))
    M = {b: ref.prediction(b, theory, params) for b in ref.bins}

    def put(M):
        cl_file(os.path.join(folder, 'cl_hat.dat'), ref.bins, [cols[i] for i in perm],
                [[M[b][used.index(pairs[i][0]), used.index(pairs[i][1])] for b in ref.bins] for i in perm])
        return quiet(DatasetLikelihood, fname, over).chi_squared(ClsArray(tf), params)

    t.nontrivial(len(pairs) * len(ref.bins) > 1)
    # log(1 + eps) - eps at machine precision gives a root of order 1e-8
    close(put(M), 0., atol=1e-8 if d['approx'] == 'gaussian' else 1e-4, what='chi squared of the exact prediction')
    if d['approx'] == 'exact':
        b, q = ref.bins[rng.integers(len(ref.bins))], frozenset(used[:1])
    else:
        b, q = ref.keep[rng.integers(len(ref.keep))]
    i, j = [used.index(m) for m in (list(q) * 2)[:2]]
    M[b][i, j] += .05
    if i != j:
        M[b][j, i] += .05
    got = put(M)
    want = Ref(fname, over).chi2(theory, params)[0]
    close(got, want, rtol=1e-3, atol=1e-9, what='chi squared of a changed bandpower %s of bin %s' % ('x'.join(q), b))
    assert want > 0


REAL = [f for sub in ('planck_lensing', 'planck_lensing_2018', 'BK14', 'BKPlanck') if os.path.isdir(DATA + sub)
        for f in sorted(os.path.join(sub, x) for x in os.listdir(DATA + sub)) if f.endswith('.dataset')]
REAL = [f for f in REAL if not any(k.endswith('_fix_cl_file') for k in read_dataset(DATA + f))]  # not supported by the python code
REAL = [f for f in REAL if os.path.exists(os.path.join(os.path.dirname(DATA + f), read_dataset(DATA + f)['covmat_fiducial']))]  # some covariances are not in git
_theory_text = {}


def real_theory(name):
    if name not in _theory_text:
        dat = np.loadtxt(DATA + name)
        with open(DATA + name) as f:
            cols = f.readline().split()[2:]
        _theory_text[name] = {frozenset(c): np.concatenate([[0, 0], dat[:, i + 1]]) for i, c in enumerate(cols)}
    return {k: v.copy() for k, v in _theory_text[name].items()}


@case(st.fixed_dictionaries(dict(
    name=st.sampled_from(REAL), theory=st.sampled_from(['base_plikHM_TTTEEE_lowl_lowE.minimum.theory_cl', 'base_plikHM_TT_lowTEB.minimum.theory_cl']),
    lo=st.floats(0, 1), hi=st.floats(0, 1), restrict=st.booleans(), maps=st.lists(st.floats(0, .999), min_size=1, max_size=4), calib=st.sampled_from([1., .99, 1.01]), amp=st.floats(.5, 1.5))),
    quick=24, thorough=400, shards=4)
def distributed_datasets(d, t):
    fname = DATA + d['name']
    over = {}
    ini = read_dataset(fname)
    if d['restrict']:
        nb = int(ini['nbins'])
        over['use_min'] = 1 + int(d['lo'] * (nb - 1))
        over['use_max'] = over['use_min'] + int(d['hi'] * (nb - over['use_min']))
    if 'map_names' in ini:
        ms = ini['map_names'].split()
        over['maps_use'] = ' '.join(ms[int(x * len(ms))] for x in d['maps'])
    ref = Ref(fname, over)
    theory = real_theory(d['theory'])
    for k in theory:
        theory[k] *= d['amp']
    params = {ref.calib: d['calib']} if ref.calib else {}
    like = quiet(DatasetLikelihood, fname, over)
    cls = ClsArray(DATA + d['theory'], rescale=d['amp'])
    want, scale = ref.chi2(theory, params)
    t.nontrivial()
    t.label(os.path.dirname(d['name']))
    close(like.chi_squared(cls, params), want, rtol=1e-6, atol=1e-8 * max(1, scale), what='chi squared of ' + d['name'])


class Foreground(DatasetLikelihood):
    def add_foregrounds(self, cls, data_params):
        L = np.arange(self.pcl_lmin, self.pcl_lmax + 1)
        for i in range(self.nmaps_required):
            for j in range(i + 1):
                cls[i, j].CL += data_params['A'] * (1 + i + 10 * j) * L


@case(datasets(), quick=100, thorough=2000)
def foreground_table(d, t):
    """write_likelihood_data: one line for each L, one column for each pair of required maps; binned windows can be written."""
    folder = t.dir()
    fname, over, params, tf, theory, used, required = make_dataset(d, folder)
    like = quiet(Foreground, fname, over)
    A = 0.37 if d['seed'] % 2 else -1.5
    out = os.path.join(folder, 'fg.txt')
    like.write_likelihood_data(out, {'A': A})
    with open(out) as f:
        lines = f.read().split('\n')
    sep = 'x' if d['named'] else ''
    pairs = [(i, j) for i in range(len(required)) for j in range(i + 1)]
    t.nontrivial(len(pairs) > 1)
    equal(lines[0].split()[1:], ['L'] + [required[i] + sep + required[j] for i, j in pairs], 'header')
    dat = np.loadtxt(out, ndmin=2)
    L = np.arange(d['lmin'], d['lmax'] + 1)
    close(dat[:, 0], L, what='L')
    for k, (i, j) in enumerate(pairs):
        close(dat[:, k + 1], A * (1 + i + 10 * j) * L, rtol=1e-7, what='column')
    if d['approx'] != 'exact':
        like.bins.write(os.path.join(folder, 'out'), '_stem')
        ref = Ref(fname, over)
        for n, b in enumerate(ref.bins):
            w = np.loadtxt(os.path.join(folder, 'out_stem_window', 'window%d.dat' % (n + 1)), ndmin=2)
            W = ref.windows[b][2]
            close(w[:, 0], L, what='L of window')
            close(w[:, 1:], W.T, rtol=1e-5, atol=1e-12, what='window %d' % b)


# ---------------------------------------------------------------- spectra files

@case(st.fixed_dictionaries(dict(
    seed=gen.seeds, fields=st.lists(st.sampled_from('TEBPWN'), min_size=1, max_size=5, unique=True),
    lmin=st.integers(0, 4), n=st.integers(2, 12), lmin2=st.integers(0, 6), n2=st.integers(2, 14), rescale=st.sampled_from([None, 2.5]), given=st.sampled_from(['header', 'str', 'list']),
    drop=st.integers(0, 6))), quick=300, thorough=6000)
def spectra_files(d, t):
    rng = np.random.default_rng(d['seed'])
    folder = t.dir()
    fs = d['fields']
    pairs = [a + b for i, a in enumerate(fs) for b in fs[:i + 1]]

    def make(name, lmin, n, drop):
        cols = [p if rng.random() < .5 else p[::-1] for p in pairs]
        cols = [cols[i] for i in rng.permutation(len(cols))][:max(1, len(cols) - drop)]
        k = int(rng.integers(0, len(cols) + 1))
        cols.insert(k, 'XX')
        L = np.arange(lmin, lmin + n)
        vals = rng.normal(size=(len(cols), n))
        path = cl_file(os.path.join(folder, name), L, cols, vals, header=d['given'] == 'header')
        arg = {'header': None, 'str': 'L ' + ' '.join(cols), 'list': ['L'] + cols}[d['given']]
        return path, arg, {frozenset(c): (lmin, v) for c, v in zip(cols, vals)}

    f1, a1, v1 = make('a.dat', d['lmin'], d['n'], d['drop'])
    f2, a2, v2 = make('b.dat', d['lmin2'], d['n2'], 0)
    lmax = d['lmin'] + d['n'] - 1
    cls = ClsArray(f1, cols=a1, field_names=list(fs), rescale=d['rescale'])
    equal((int(cls.lmin), int(cls.lmax)), (d['lmin'], lmax), 'range of L')
    t.nontrivial(len(pairs) > 1)

    def expect(src, factor):
        out = np.zeros(lmax + 1)
        lo, v = src
        for i, x in enumerate(v):
            if lo + i <= lmax:
                out[lo + i] = x * factor
        return out

    for step in (1, 2):
        for i, a in enumerate(fs):
            for j, b in enumerate(fs):
                k = frozenset(a + b)
                got = cls.get((i, j))
                if k in v1:
                    close(got, expect(v1[k], d['rescale'] or 1), rtol=1e-14, what='%s%s, step %d' % (a, b, step))
                elif step == 1:
                    assert got is None, '%s%s is not in the file' % (a, b)
                else:
                    close(got, expect(v2[k], 1), rtol=1e-14, what='%s%s of second file' % (a, b))
        if step == 1:
            quiet(cls.add_from_file, f2, a2)
    names = [next(iter(k)) * 2 if len(k) == 1 else ''.join(sorted(k)) for k in v1]
    if d['given'] == 'header':
        cols, dat = CMBlikes.readWithHeader(f1)
        pick = [cols[i] for i in rng.permutation(len(cols))]
        res = CMBlikes.readTextCommentColumns(f1, pick)
        for c, v in zip(pick, np.atleast_2d(res)):
            close(v, dat[:, cols.index(c)], what='column %s' % c)
            if c != 'L':
                close(v, v1[frozenset(c)][1], what='column %s' % c)


# ---------------------------------------------------------------- forecasts

@st.composite
def forecasts(draw):
    d = dict(seed=draw(gen.seeds), lmin=draw(st.integers(2, 5)), n=draw(st.integers(2, 30)), fsky=draw(st.sampled_from([1, .7, .01])),
             fwhm=draw(st.sampled_from([5, 5., 1.4, 60])), noise=draw(st.sampled_from(['T', 'TP', 'var', 'varfac', 'lens'])), lens=draw(st.booleans()),
             cols=draw(st.permutations(['TT', 'TE', 'EE', 'BB', 'PP'])), fields=draw(st.sampled_from([None, None, 'T', 'E', 'T E', 'E B', 'T E B', 'B T'])),
             cols_given=draw(st.booleans()), miss=draw(st.lists(st.sampled_from(['BB', 'PP', 'TE', 'EE', 'TT']), max_size=3)), extra=draw(st.integers(0, 4)), below=draw(st.booleans()))
    return d


@case(forecasts(), quick=400, thorough=10000, shards=2)
def forecast(d, t):
    rng = np.random.default_rng(d['seed'])
    folder = t.dir()
    only_lens = d['noise'] == 'lens'
    lens = d['lens'] or only_lens
    cols = [c for c in d['cols'] if c not in d['miss'] or c == 'PP' and lens]
    lmax = d['lmin'] + d['n'] - 1
    first = 2 if d['below'] else d['lmin']
    full = lmax + d['extra']
    fid = theories(rng, full, cols, first)
    L = np.arange(first, full + 1)
    src = cl_file(os.path.join(folder, 'fid.dat'), L, cols, [fid[frozenset(c)][first:] for c in cols], header=not d['cols_given'])
    T, P = 30. * rng.uniform(.5, 2), 50. * rng.uniform(.5, 2)
    kw = {}
    fac = 2.
    if d['noise'] in ('T', 'TP'):
        kw['noise_muK_arcmin_T'] = T
        var = (T * np.pi / 180 / 60) ** 2
        if d['noise'] == 'TP':
            kw['noise_muK_arcmin_P'] = P
            fac = (P / T) ** 2
    elif not only_lens:
        var = 4e-5 * rng.uniform(.5, 2)
        kw['NoiseVar'] = var
        if d['noise'] == 'varfac':
            fac = kw['ENoiseFac'] = 4.
    if not only_lens:
        kw['fwhm_arcmin'] = d['fwhm']
    if lens:
        kw['lens_recon_noise'] = rng.uniform(.1, 1, lmax + 1)
        if rng.random() < .3:
            kw['lens_recon_noise'] = list(kw['lens_recon_noise'])
    if d['fields'] and not only_lens:
        kw['fields_use'] = d['fields']
    if d['cols_given']:
        kw['cl_data_cols'] = ' '.join(cols)
    out = os.path.join(folder, 'sub', 'dir')
    make_forecast_cmb_dataset(src, 'sim', output_dir=out, lmin=d['lmin'], lmax=lmax, fsky=d['fsky'], **kw)
    fields = kw.get('fields_use', '').split()
    if not fields:
        if only_lens:
            fields = ['P']
        else:
            fields = [f for f in 'TEB' if f + f in cols or f in 'TE' and 'TE' in cols] + (['P'] if lens else [])
    if any(f + f not in cols for f in fields):
        return  # no prediction for the auto spectrum in the input
    t.nontrivial(len(fields) > 1)
    t.label(d['noise'])
    like = quiet(DatasetLikelihood, os.path.join(out, 'sim.dataset'))
    equal([x for x in FIELDS if x in fields], list(like.used_map_order), 'fields')
    other = {k: v * rng.uniform(.9, 1.1) for k, v in fid.items()}
    order = list(other)
    tnames = ['TE' if len(k) == 2 else next(iter(k)) * 2 for k in order]
    tf = cl_file(os.path.join(folder, 'th.dat'), L, tnames, [other[k][first:] for k in order])
    if not d['cols_given']:
        close(like.chi_squared(ClsArray(src)), 0, atol=1e-8, what='chi squared of the input model')

    def noise(f, l):
        if f == 'P':
            return kw['lens_recon_noise'][l]
        s = d['fwhm'] / 60. * np.pi / 180 / math.sqrt(8 * math.log(2))
        return (1 if f == 'T' else fac) * l * (l + 1) / 2 / np.pi * var * math.exp(l * (l + 1) * s ** 2)

    want = 0
    for l in range(d['lmin'], lmax + 1):
        N = np.diag([noise(f, l) for f in fields])
        mat = lambda th: np.array([[th[frozenset(a + b)][l] if frozenset(a + b) in th else 0. for a in fields] for b in fields])
        M = np.linalg.solve(mat(other) + N, mat(fid) + N)
        want += (2 * l + 1) * d['fsky'] * (np.trace(M) - len(fields) - np.log(np.linalg.det(M)))
    close(like.chi_squared(ClsArray(tf)), want, rtol=1e-4, atol=1e-6 * d['n'] * lmax, what='chi squared of another model')


# ---------------------------------------------------------------- plots

@case(datasets().filter(lambda d: d['approx'] == 'gaussian'), quick=60, thorough=600)
def plotted(d, t):
    d = dict(d, order_key=False, hat_noise=False, correction=0, leak=0, drop=0)
    folder = t.dir()
    fname, over, params, tf, theory, used, required = make_dataset(d, folder)
    rng = np.random.default_rng(d['seed'] + 5)
    pairs = [(a, b) for i, a in enumerate(used) for b in used[:i + 1]]
    p = pairs[rng.integers(len(pairs))]
    # a file with just this spectrum in the covariance
    sep = 'x' if d['named'] else ''
    name = sep.join(p)
    nb = d['nbins']
    A = rng.normal(size=(nb, nb))
    np.savetxt(os.path.join(folder, 'cov.txt'), A @ A.T + np.eye(nb))
    lo = np.arange(nb) * 10. + 1
    have_range = bool(rng.integers(2))
    vals = rng.uniform(1, 2, (1, nb))
    cl_file(os.path.join(folder, 'cl_hat.dat'), np.arange(1, nb + 1), (['L_min', 'L_max'] if have_range else []) + ['L_av', name],
            ([lo, lo + 8] if have_range else []) + [lo + 3, vals[0]])
    over = dict(over, covmat_cl=name)
    like = quiet(DatasetLikelihood, fname, over)
    cls = ClsArray(tf)
    fig, ax = plt.subplots()
    try:
        f = dict(zip(d['names'], d['fields']))
        th = theory.get(frozenset(f[m] for m in p))
        if th is None:
            return
        kind = rng.integers(3)
        if kind == 0:
            like.plot(name, cls, ax=ax)
        elif kind == 1:
            like.plot(name, th, ax=ax)
        else:
            like.plot(column=name, ClArray=th[4:], ls=np.arange(4, len(th)), ax=ax)
        t.nontrivial()
        c = ax.containers[0]
        close(c[0].get_xdata(), lo + 3, what='bin centres')
        close(c[0].get_ydata(), vals[0], what='plotted bandpowers')
        seg = [np.array(s) for s in c[2][-1].get_segments()]
        err = np.sqrt(np.diag(A @ A.T + np.eye(nb)))
        close([(s[1, 1] - s[0, 1]) / 2 for s in seg], err, rtol=1e-6, what='error bars')
        line = ax.lines[-1]
        close(line.get_xdata(), np.arange(4 if kind == 2 else 0, len(th)), what='L of theory')
        close(line.get_ydata(), th[4 if kind == 2 else 0:], what='plotted theory')
    finally:
        plt.close(fig)


@case(st.fixed_dictionaries(dict(name=st.sampled_from([x for x in REAL if 'lensing' in x]))), quick=2, thorough=10)
def command(d, t):
    """plotAndChisq prints the chi squared and shows data with theory"""
    fname = DATA + d['name']
    tn = 'base_plikHM_TTTEEE_lowl_lowE.minimum.theory_cl'
    plt.close('all')
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            CMBlikes.plotAndChisq(fname, DATA + tn)
        ref = Ref(fname)
        want, _ = ref.chi2(real_theory(tn), {})
        t.nontrivial()
        got = float(out.getvalue().split('Chi-squared:')[1].split()[0])
        close(got, want, rtol=1e-6, what='printed chi squared')
        ax = plt.gca()
        close(ax.lines[-1].get_ydata(), real_theory(tn)[frozenset('P')], what='plotted theory')
    finally:
        plt.close('all')
