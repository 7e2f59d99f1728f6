"""Generated settings of chain grids: strategy, settings-file writer and reference model of the jobs they stand for."""
import contextlib
import importlib
import itertools
import os
import sys
from hypothesis import strategies as st
from vlib import Discard, write

DATA = ['plik', 'TT', 'lowl', 'BAO', 'lensing', 'SN']
IMP = ['BAO', 'lensing', 'H0', 'SN']
FILT = ['zre6p5', 'theta', 'lensing']  # one also a data set: its filters can cover other runs
PARAMS = ['mnu', 'omegak', 'r', 'nnu', 'meffsterile']
KEYS = ['k%d' % i for i in range(5)] + ['num_massive_neutrinos', 'accuracy_level']
INIS = ['d1.ini', 'd2.ini', 'd3.ini', 'common.ini', 'over.ini', 'imp.ini', 'impdef.ini']

_count = itertools.count()


def uniq_lists(pool, lo, hi):
    return st.lists(st.sampled_from(pool), min_size=lo, max_size=hi, unique=True)


def opts(prefix, hi=3):
    return st.lists(st.sampled_from(KEYS), max_size=hi, unique=True).map(lambda ks: {k: prefix + '_' + k for k in ks})


@st.composite
def datasets(draw):
    names = draw(uniq_lists(DATA, 1, 3))
    kind = draw(st.sampled_from(['none', 'inis', 'mixed', 'add']))
    d = dict(names=names, kind=kind)
    if kind == 'inis':
        d['params'] = draw(uniq_lists(['d1', 'd2.ini', 'd3.ini'], 1, 3))
    elif kind == 'mixed':
        d['params'] = [draw(uniq_lists(['d1.ini', 'd2.ini'], 1, 2)), draw(opts('data'))]
    elif kind == 'add':
        d['params'] = draw(uniq_lists(['d1', 'd2.ini'], 1, 2))
        d['add'] = draw(st.sampled_from([x for x in DATA if x not in names]))
        d['end'] = draw(st.booleans())
    if draw(st.integers(0, 4)) == 0:
        d['covmat'] = draw(st.sampled_from(['dset.covmat', 'missing.covmat']))
    if draw(st.integers(0, 2)) == 0:
        d['dist'] = {'mark_data': names[0], 'mark_all': names[-1]}
    return d


@st.composite
def imp_runs(draw):
    return dict(names=draw(uniq_lists(IMP, 1, 2)), inis=draw(st.sampled_from([[], ['imp.ini'], ['imp'], ['d3.ini']])), opts=draw(opts('imp', 2)),
                kind=draw(st.sampled_from(['list', 'setting', 'nomin', 'cond'])), cond=draw(st.sampled_from(DATA)),
                dist=draw(st.sampled_from([None, {'mark_imp': 'a'}, {'mark_all': 'b', 'mark_imp': 'c'}])))


@st.composite
def specs(draw, small=False):
    s = dict(groups=[])
    size = lambda: draw(st.sampled_from([1, 2, 3, 2]))
    for g in range(draw(st.integers(1, 1 if small else 2))):
        a, b = size(), size()
        s['groups'].append(dict(name=['main', 'ext'][g], ctor=draw(st.booleans()),
                                params=draw(st.lists(uniq_lists(PARAMS, 0, 2), min_size=a, max_size=3, unique_by=lambda x: tuple(sorted(x)))),
                                datasets=draw(st.lists(datasets(), min_size=b, max_size=3)),
                                imp=draw(st.lists(imp_runs(), max_size=2)),
                                extra_opts=draw(st.none() | opts('gextra')),
                                param_extra_opts=draw(st.none() | st.dictionaries(st.sampled_from(PARAMS), opts('gpe', 2), max_size=2))))
    s['imp'] = draw(st.none() | st.lists(imp_runs(), max_size=1))
    s['filters'] = draw(st.none() | st.lists(st.sampled_from(FILT), max_size=2, unique=True))
    s['filter_cond'] = draw(st.none() | st.sampled_from(DATA + ['H0']))
    s['skip'] = draw(st.lists(st.integers(0, 8), max_size=2))
    s['extra_opts'] = draw(st.none() | opts('sextra'))
    s['params'] = draw(st.booleans())
    s['param_extra_opts'] = draw(st.none() | st.just({}) | st.dictionaries(st.sampled_from(PARAMS), opts('spe', 2), max_size=3))
    s['start_at_bestfit'] = draw(st.sampled_from([None, None, False, True]))
    s['override'] = draw(st.booleans())
    s['files'] = {f: sorted(draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=5, unique=True))) for f in INIS}
    s['covs'] = draw(st.lists(st.tuples(st.integers(0, 8), st.sampled_from(['exact', 'normed', 'mapped', 'without', 'renamed', 'renamed'])), max_size=4))
    s['covmap'] = draw(st.booleans())
    s['covwithout'] = draw(uniq_lists(DATA, 0, 2))
    s['settings_cov'] = draw(st.booleans())
    s['covrenames'] = draw(st.none() | st.lists(st.tuples(st.sampled_from(DATA + ['_mnu', 'plik_TT']), st.sampled_from(['old', 'xx_yy', ''])), max_size=2, unique_by=lambda x: x[0]))
    s['covrenamer'] = draw(st.booleans())
    s['covfallback'] = draw(st.booleans())
    s['newcov'] = draw(st.sampled_from([None, False, True]))
    s['getdist'] = draw(st.none() | st.fixed_dictionaries({}, optional={'ignore_rows': st.sampled_from(['0.5', 0, 3]), 'mark_grid': st.just('x'), 'mark_all': st.just('grid')}))
    return distinct(s)


def distinct(s):
    """Leave out the data sets and importance runs that would give a second job of the same name."""
    seen = set()
    for g in s['groups']:
        keep = []
        for d in g['datasets']:
            names = ['_'.join(sorted(p) + [''] + sorted(dataset_names(d))) for p in g['params']]
            if seen.isdisjoint(names):
                seen.update(names)
                keep.append(d)
        g['datasets'] = keep
    s['groups'] = [g for g in s['groups'] if g['datasets']]
    while True:
        try:
            model(s)
            return s
        except Discard:
            for runs in [s['imp'] or []] + [g['imp'] for g in s['groups']]:
                if runs:
                    runs.pop()
                    break
            else:
                return s


class Job:
    """One job of the reference model."""

    def __init__(self, param_set, names, group, dset, parent=None, imp=None, filt=None):
        self.param_set, self.names, self.group, self.dset, self.parent, self.imp, self.filt = param_set, names, group, dset, parent, imp, filt
        self.paramtag = '_'.join(['base'] + param_set)
        self.normed = '_'.join(['base'] + sorted(param_set) + sorted(names))
        if parent is None:
            self.datatag = '_'.join(names)
            self.name = self.paramtag + '_' + self.datatag
            self.rel = os.path.join(self.paramtag, self.datatag)
        else:
            tag = '_'.join((['post'] if parent.parent is None else []) + self.own())
            self.datatag = parent.datatag + '_' + tag
            self.name = parent.name + '_' + tag
            self.rel = parent.rel

    def dist(self):
        """analysis settings (of filters of importance runs: those that must be there)"""
        v = dict(self.dset.get('dist') or {})
        if self.filt:
            if self.parent.parent is not None and 'mark_all' in (self.parent.imp.get('dist') or {}):
                v.pop('mark_all', None)
            v['mark_filter'] = self.filt
        elif self.imp and self.imp['kind'] != 'list':
            v.update(self.imp.get('dist') or {})
        return v

    def own(self):
        return [self.filt] if self.filt else self.imp['names']


def dataset_names(d):
    return d['names'] + ([d['add']] if d['kind'] == 'add' else [])


def dataset_params(d):
    """-> (ini files in order of precedence, direct values)"""
    if d['kind'] == 'none':
        return [n + '.ini' for n in d['names']], {}
    full = lambda xs: [x if x.endswith('.ini') else x + '.ini' for x in xs]
    if d['kind'] == 'inis':
        return full(d['params']), {}
    if d['kind'] == 'mixed':
        return full(d['params'][0]), d['params'][1]
    return (full(d['params']) + ['d3.ini'] if d['end'] else ['d3.ini'] + full(d['params'])), {}


def model(s):
    """-> (full runs, importance candidates)"""
    full, all_full, cand = [], [], []
    for g in s['groups']:
        for d in g['datasets']:
            for p in g['params']:
                all_full.append(Job(p, dataset_names(d), g, d))
    if len(set(j.normed for j in all_full)) != len(all_full):
        raise Discard()
    first = [(j, imp) for j in all_full for imp in j.group['imp'] + (s['imp'] or []) if set(imp['names']).isdisjoint(j.names)
             and (imp['kind'] != 'cond' or imp['cond'] in j.names)]
    imps = [Job(j.param_set, j.names + imp['names'], j.group, j.dset, j, imp) for j, imp in first]
    if len(set(j.name for j in imps)) != len(imps):
        raise Discard()
    names = [j.name for j in all_full] + [j.name for j in imps]
    skip = sorted(set(names[i % len(names)] for i in s['skip']))
    full = [j for j in all_full if j.name not in skip]
    imps = [j for j in imps if j.parent in full]
    for j in [i for i in imps if i.name not in skip] + full:
        for f in s['filters'] or []:
            if f not in j.names and (s['filter_cond'] is None or s['filter_cond'] in j.names):
                cand.append(Job(j.param_set, j.names + [f], j.group, j.dset, j, None, f))
    if len(set(j.name for j in imps + cand)) != len(imps + cand):
        raise Discard()
    return full, imps + cand, skip


def settings_text(s, ini_dir, cov_dir, skip):
    r = ['from paramgrid import batchjob', '', 'ini_dir = %r' % ini_dir, 'cov_dir = %r' % cov_dir, "defaults = ['common.ini']",
         "importanceDefaults = ['impdef.ini']", 'skip = %r' % skip, '']
    r += ['class cond(batchjob.importanceSetting):', '    def wantImportance(self, jobItem):', '        return self.need in jobItem.data_set.names', '']
    r += ['class condfilter(batchjob.importanceFilter):', '    def wantImportance(self, jobItem):',
          '        return %r in jobItem.data_set.names' % s['filter_cond'] if s['filter_cond'] else '        return True', '']
    n = itertools.count()

    def imp_lines(imps):
        out = []
        for imp in imps:
            inis = imp['inis'] + ([imp['opts']] if imp['opts'] else [])
            if imp['kind'] == 'list':
                out.append('[%r, %r]' % (imp['names'], inis))
            elif imp['kind'] == 'cond':
                v = 'c%d' % next(n)
                r.append('%s = cond(%r, %r%s)\n%s.need = %r' % (v, imp['names'], inis, ', dist_settings=%r' % imp['dist'] if imp.get('dist') else '', v, imp['cond']))
                out.append(v)
            else:
                out.append('batchjob.importanceSetting(%r, %r%s%s)' % (imp['names'], inis, ', minimize=False' if imp['kind'] == 'nomin' else '',
                                                                       ', dist_settings=%r' % imp['dist'] if imp.get('dist') else ''))
        return '[' + ', '.join(out) + ']'

    def dset(d):
        more = (', covmat=%r' % d['covmat'] if 'covmat' in d else '') + (', dist_settings=%r' % d['dist'] if d.get('dist') else '')
        if d['kind'] == 'none':
            return 'batchjob.dataSet(%r%s)' % (d['names'], more)
        if d['kind'] == 'add':
            return 'batchjob.dataSet(%r, %r%s).%s(%r, %s)' % (d['names'], d['params'], more, 'addEnd' if d['end'] else 'add', d['add'], "['d3']")
        return 'batchjob.dataSet(%r, %r%s)' % (d['names'], d['params'][0] + [d['params'][1]] if d['kind'] == 'mixed' else d['params'], more)

    r.append('groups = []')
    for g in s['groups']:
        imps = imp_lines(g['imp'])
        dsets = '[' + ', '.join(dset(d) for d in g['datasets']) + ']'
        if g['ctor']:
            r.append('g = batchjob.jobGroup(%r, params=%r, importanceRuns=%s, datasets=%s)' % (g['name'], g['params'], imps, dsets))
        else:
            r.append('g = batchjob.jobGroup(%r)\ng.params = %r\ng.importanceRuns = %s\ng.datasets = %s' % (g['name'], g['params'], imps, dsets))
        for k in ('extra_opts', 'param_extra_opts'):
            if g[k] is not None:
                r.append('g.%s = %r' % (k, g[k]))
        r.append('groups.append(g)')
    if s['imp'] is not None:
        r.append('importanceRuns = ' + imp_lines(s['imp']))
    if s['filters'] is not None:
        r.append('importance_filters = [%s]' % ', '.join(('condfilter([%r], {"mark_filter": %r})' if i % 2 == 0 or s['filter_cond'] else 'batchjob.importanceFilter([%r], dist_settings={"mark_filter": %r})') % (f, f)
                                                         for i, f in enumerate(s['filters'])))
    for k in ('extra_opts', 'param_extra_opts', 'start_at_bestfit'):
        if s[k] is not None:
            r.append('%s = %r' % (k, s[k]))
    if s['params']:
        r.append('params = %r' % {p: '1 2 3 ' + p for p in PARAMS})
    if s['override']:
        r.append("override_defaults = ['over.ini']")
    if s['covmap']:
        r.append("covNameMappings = {'plik': 'planck', 'lowl': ''}")
    if s['covwithout']:
        r.append('covWithoutNameOrder = %r' % s['covwithout'])
    if s['settings_cov']:
        r.append("covmat = 'sett.covmat'")
    if s['covrenames'] is not None:
        r.append('covrenames = %r' % s['covrenames'])
    if s['covrenamer']:
        r.append("def covRenamer(name):\n    return [name + '_ren', 'ren_' + name]")
    if s['covfallback']:
        r.append('cov_dir_fallback = %r' % (cov_dir + '2'))
    if s.get('getdist') is not None:
        r.append('getdist_options = %r' % s['getdist'])
    if s['newcov'] is not None:
        r.append('newCovmats = %r' % s['newcov'])
    return '\n'.join(r) + '\n'


@contextlib.contextmanager
def imports():
    """Undo additions to the module path and to loaded settings modules."""
    path, mods, wb = list(sys.path), set(sys.modules), sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    importlib.invalidate_caches()
    try:
        yield
    finally:
        sys.path[:] = path
        sys.dont_write_bytecode = wb
        for m in set(sys.modules) - mods:
            f = getattr(sys.modules[m], '__file__', None) or ''
            if m.startswith('sett_') or m == 'batchJob':
                del sys.modules[m]
        sys.path_importer_cache.clear()


def prepare(s, base, repo, module=None):
    """Write ini files and the settings file -> dict(module, grid directory, ...)."""
    full, cand, skip = model(s)
    inis, covs, sett = [os.path.join(base, x) for x in ('inis', 'covs', 'sett')]
    for d in (inis, covs, covs + '2', sett):
        os.makedirs(d)
    for f in INIS + [n + '.ini' for n in DATA]:
        write(os.path.join(inis, f), ''.join('%s = %s_%s\n' % (k, f[:-4], k) for k in s['files'].get(f, ['k0', 'k3'])))
    module = module or 'sett_%d_%d' % (os.getpid(), next(_count))
    write(os.path.join(sett, module + '.py'), settings_text(s, os.path.relpath(inis, repo) + os.sep, covs, skip))
    return dict(module=module, grid=os.path.join(base, 'g.initial'), inis=inis, covs=covs, sett=sett, full=full, cand=cand, skip=skip)
