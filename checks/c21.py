"""Chain grids: jobs of a settings file, their names, paths and ini files, lookup, caching, state and command-line selection."""
import contextlib
import copy
import fnmatch
import io
import os
import sys
import time
from hypothesis import strategies as st
from vlib import Discard, case, close, equal, raises, read, write
import gridspec
from gridspec import DATA, FILT, IMP, PARAMS, imports, prepare, specs
import paramgrid
from paramgrid import batchjob, batchjob_args, gridconfig
from getdist import IniFile

RULE = ('settings files with up to two groups of parameter sets times data combinations, importance runs, filters, skips and options; '
        'non-trivial: an importance run duplicated by a full or another importance run, a value set at two levels, or a changed file state')
ASSUMPTIONS = ['data names have no underscore', 'full runs of one grid differ in their sorted names']

REPO = os.path.normpath(os.path.join(os.path.dirname(paramgrid.__file__), '..', '..'))


def quiet(f, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kwargs)


def make(p, read_only=False):
    sys.path.insert(0, p['sett'])
    return quiet(gridconfig.makeGrid, p['grid'], p['module'], readOnly=read_only)


def visible(batch, imp=True):
    return list(batch.items(wantImportance=imp))


def check_items(batch, p, full=None, what='grid', of=None):
    """Jobs of the grid against the model -> {name: (item, model job)}"""
    full = p['full'] if full is None else full
    cands = [c for c in p['cand'] if (c.parent in full or c.parent.parent in full)]
    cand = {c.name: c for c in cands}
    items = visible(batch)
    top = visible(batch, False)
    equal([x.name for x in top], [j.name for j in full], what + ' full runs')
    by = {}
    path = os.path.abspath(p['grid']) + os.sep
    fullnames = {j.name: j for j in full}
    for x in items:
        equal(x.isImportanceJob, x.name not in fullnames, '%s importance flag of %s' % (what, x.name))
        m = fullnames.get(x.name) or cand.get(x.name)
        assert m is not None, '%s: unexpected job %s' % (what, x.name)
        assert x.name not in by, '%s: job %s twice' % (what, x.name)
        by[x.name] = (x, m)
        equal(x.paramtag, m.paramtag, 'parameter tag of ' + x.name)
        equal(x.datatag, m.datatag, 'data tag of ' + x.name)
        equal(list(x.data_set.names), m.names, 'data names of ' + x.name)
        equal(list(x.param_set), m.param_set, 'parameters of ' + x.name)
        equal(x.group, m.group['name'], 'group of ' + x.name)
        equal(x.chainPath, path + m.rel + os.sep, 'chain path of ' + x.name)
        equal(x.chainRoot, path + m.rel + os.sep + x.name, 'chain root of ' + x.name)
        equal(x.distRoot, path + m.rel + os.sep + 'dist' + os.sep + x.name, 'dist root of ' + x.name)
        equal(x.iniFile(), path + ('postIniFiles' if m.parent else 'iniFiles') + os.sep + x.name + '.ini', 'ini file of ' + x.name)
        equal(x.normed_name, m.normed, 'normalized name of ' + x.name)
        if m.parent:
            equal(x.parent.name, m.parent.name, 'parent of ' + x.name)
            equal(bool(getattr(x, 'importanceFilter', None)), bool(m.filt), 'filter flag of ' + x.name)
        if m.filt and m.parent.parent is not None:
            equal({k: v for k, v in x.dist_settings.items() if k in m.dist()}, m.dist(), 'analysis settings of ' + x.name)
        else:
            equal(dict(x.dist_settings), m.dist(), 'analysis settings of ' + x.name)
    normed = [x.normed_name for x in items]
    dup = sorted(set(n for n in normed if normed.count(n) > 1))
    assert not dup, '%s: several jobs for %s: %s' % (what, dup[0], [x.name for x in items if x.normed_name == dup[0]])
    expect = set(j.normed for j in full) | set(c.normed for c in cands if c.name not in p['skip'])
    if of is not None:  # jobs of the grid as made
        expect = set(m.normed for x, m in of.values() if m in full or m.parent in full or m.parent and m.parent.parent in full)
    equal(sorted(normed), sorted(expect), what + ' combinations of parameters and data')
    return by


def ini_value(job, s, p, by, variant):
    """Expected values of the ini file of a model job: {key: text}"""
    v = {}

    def default(files):
        for f in files:
            for k in s['files'].get(f, ['k0', 'k3']):
                v.setdefault(k, '%s_%s' % (f[:-4], k))

    params = {q: '1 2 3 ' + q for q in PARAMS} if s['params'] else gridconfig.default_params
    pe = s['param_extra_opts'] if s['param_extra_opts'] is not None else DEFAULT_EXTRA
    dini, dvals = gridspec.dataset_params(job.dset)
    for q in job.param_set:
        v['param[%s]' % q] = params[q]
        v.update(pe.get(q, {}))
        v.update((job.group['param_extra_opts'] or {}).get(q, {}))
    v.update(s['extra_opts'] or {})
    v.update(job.group['extra_opts'] or {})
    v['file_root'] = by[job.name][0].chainRoot
    v['start_at_bestfit'] = bool(s['start_at_bestfit'])
    v.update(dvals)
    v['action'] = 0
    if variant:
        minimize(v, job)
    if s['override']:
        default(['over.ini'])
    default(dini)
    default(['common.ini'])
    return v


def minimize(v, job):
    v['action'] = 2
    v['lmin_store_all_cmb'] = 2500
    if 'omegak' in job.param_set:
        v['accuracy_level'] = 1.2
    if 'meffsterile' in job.param_set:
        v['sterile_mphys_max'] = 10000


DEFAULT_EXTRA = copy.deepcopy(gridconfig.default_param_extra_opts)
UNJUDGED = {'propose_matrix', 'MPI_Max_R_ProposeUpdate'}


def text(x):
    return {True: 'T', False: 'F'}[x] if isinstance(x, bool) else str(x)


def check_ini(fname, expect, what):
    got = {k: str(x) for k, x in IniFile(fname).params.items() if k not in UNJUDGED}
    expect = {k: text(x) for k, x in expect.items()}
    for k in sorted(set(got) | set(expect)):
        equal(got.get(k), expect.get(k), '%s: %s' % (what, k))


def listing(d):
    return sorted(os.listdir(d)) if os.path.exists(d) else []


@case(specs(), quick=500, thorough=4000, shards=4)
def items_and_inis(s, t):
    """Every combination has exactly one job, with the documented name and place, and ini files giving the documented values."""
    base = t.dir()
    p = prepare(s, base, REPO)
    with imports():
        batch = make(p)
    by = check_items(batch, p)
    cands = p['cand']
    t.label('dup', len(by) < len(p['full']) + len(cands))
    t.nontrivial(len(by) < len(p['full']) + len(cands) or s['extra_opts'] is not None)
    names = []
    for x, m in by.values():
        if m.parent is None:
            for variant in ['', '_minimize'][:1 if s['start_at_bestfit'] else 2]:
                names.append(x.name + variant + '.ini')
                check_ini(x.iniFile(variant), ini_value(m, s, p, by, variant), 'ini file of %s%s' % (x.name, variant))
            assert os.path.isdir(x.chainPath), 'no directory for ' + x.name
    equal(listing(os.path.join(p['grid'], 'iniFiles')), sorted(names), 'ini files')
    names = []
    for x, m in by.values():
        if m.imp:
            for variant in ['', '_minimize'][:1 if m.imp['kind'] == 'nomin' else 2]:
                names.append(x.name + variant + '.ini')
                v = {}
                v.update(m.imp['opts'])
                if variant:
                    v['file_root'] = x.chainRoot
                    minimize(v, m)
                else:
                    v['redo_outroot'] = x.chainRoot
                    v['action'] = 1
                for f in [f if f.endswith('.ini') else f + '.ini' for f in m.imp['inis']] + (['impdef.ini'] if not variant else []):
                    for k in s['files'][f]:
                        v.setdefault(k, '%s_%s' % (f[:-4], k))
                for k, val in ini_value(m.parent, s, p, by, '').items():
                    v.setdefault(k, val)
                check_ini(x.iniFile(variant), v, 'ini file of %s%s' % (x.name, variant))
    got = listing(os.path.join(p['grid'], 'postIniFiles'))
    missing = sorted(set(names) - set(got))
    assert not missing, 'no importance ini file %s' % missing[0]
    extra = [g for g in set(got) - set(names) if g.replace('_minimize', '')[:-4] not in p['skip']]
    assert not extra, 'unexpected importance ini file %s' % extra[0]
    # the library defaults are shared by all grids
    equal(gridconfig.default_param_extra_opts, DEFAULT_EXTRA, 'default options after making a grid')


@case(specs(), quick=400, thorough=3000, shards=2)
def covmats(s, t):
    """The proposal covariance is the best match there is: own name, normalized or mapped name, data set, settings, names without data."""
    base = t.dir()
    p = prepare(s, base, REPO)
    mp = {'plik': 'planck', 'lowl': ''} if s['covmap'] else {}

    def normed(j, dic):
        left = sorted(x for x in [dic.get(n, n) for n in j.names] if x)
        return '_'.join(['base'] + sorted(j.param_set) + left) if left else '(no data)'

    def without(j):
        out, removes = [], dict(mp)
        for name in s['covwithout']:
            if name in j.names:
                removes[name] = ''
                out += [normed(j, {name: ''}), normed(j, removes)]
        return out

    def renamed(j):
        out = []
        for q in (j.name, normed(j, mp)):
            if s['covrenamer']:
                out += [q + '_ren', 'ren_' + q]
        for q in (j.name, normed(j, mp)):
            out += [q.replace(old, new, 1) for old, new in s['covrenames'] or [] if old in q]
        return out

    files, more = set(), set()  # in the directory, and in the one used for names that do not quite match
    if not p['full']:
        raise Discard()
    for i, kind in s['covs']:
        j = p['full'][i % len(p['full'])]
        if kind == 'exact':
            files.add(j.name)
        elif kind == 'normed':
            files.add(normed(j, mp))
        elif kind == 'mapped' and s['covmap'] and 'lowl' not in j.names:
            files.add('_'.join(mp.get(x, x) for x in j.name.split('_')))
        elif kind == 'without':
            more.update(without(j)[i % 2::2])
        elif kind == 'renamed':
            more.update(renamed(j)[i % 3::3])
    if s['skip']:
        files.add('dset')
    if s['start_at_bestfit'] is not None:
        files.add('sett')
    files, more = [{f for f in fs if '(no data)' not in f} for fs in (files, more)]
    inexact = os.path.join(p['covs'] + '2') if s['covfallback'] else p['covs']
    if not s['covfallback']:
        more = files = files | more
    for d, fs in ((p['covs'], files), (inexact, more)):
        for f in fs:
            write(os.path.join(d, f + '.covmat'), '# a\n1\n')
    with imports():
        batch = make(p)
    for j in p['full']:
        tries = [j.name, normed(j, mp)]
        if s['covmap']:
            tries.append('_'.join(mp.get(x, x) for x in j.name.split('_')))
        if 'covmat' in j.dset:
            tries.append(j.dset['covmat'][:-7])
        if s['settings_cov']:
            tries.append('sett')
        ok = [os.path.join(p['covs'], x + '.covmat') for x in tries if x in files]
        good = bool(ok)
        ok += [os.path.join(inexact, x + '.covmat') for x in renamed(j) + without(j) if x in more]
        for variant in ['', '_minimize'][:1 if s['start_at_bestfit'] else 2]:
            ini = IniFile(os.path.join(p['grid'], 'iniFiles', j.name + variant + '.ini')).params
            equal(ini.get('propose_matrix'), ok[0] if ok else None, 'proposal matrix of ' + j.name)
            equal(str(ini.get('MPI_Max_R_ProposeUpdate')), 'None' if good and s['newcov'] is False else '20', 'updating of the proposal matrix of ' + j.name)
        t.nontrivial(len(set(ok)) > 1)
    del batch


@case(st.tuples(specs(), st.randoms(use_true_random=False).map(lambda r: r.randrange(10 ** 9))), quick=300, thorough=3000, shards=2)
def resolve(c, t):
    """Jobs are found by parameters and data in any order, with or without the importance mark."""
    s, seed = c
    import random
    rng = random.Random(seed)
    p = prepare(s, t.dir(), REPO)
    with imports():
        batch = make(p)
    by = check_items(batch, p)

    def shuffled(xs):
        xs = list(xs)
        rng.shuffle(xs)
        return xs

    for x, m in by.values():
        for k in range(3):
            ps, ds = shuffled(m.param_set), shuffled(m.names)
            tag = '_'.join(ds)
            if k == 1 and len(ds) > 1:
                tag = '_'.join(ds[:1] + ['post'] + ds[1:])
            if k == 2:
                ps, tag = m.param_set, m.datatag
            for pt in ('_'.join(ps), ps):
                equal(batch.resolveName(list(pt) if isinstance(pt, list) else pt, tag), x.name, 'job for %s, %s' % (pt, tag))
            assert batch.resolveName('_'.join(ps), tag, returnJobItem=True) is x, 'job item for %s, %s' % (ps, tag)
            got = batch.resolveName('_'.join(ps), tag, wantImportance=False, raiseError=False)
            equal(got, None if m.parent else x.name, 'full run for %s, %s' % (ps, tag))
            if k == 2:
                parts = lambda v: sorted(w for w in v.split('_') if w != 'post')
                others = [o.datatag for _, o in by.values() if parts(o.datatag) != parts(tag)] + [tag + '_other', '']
                assert not x.matchesDatatag(others), 'data %s matches %s' % (tag, others)
                for same in (tag, tag.replace('_post', ''), '_'.join(parts(tag))):
                    assert x.matchesDatatag([same]) and x.matchesDatatag(others + [same]), 'data %s does not match %s' % (tag, same)
            t.nontrivial(len(ds) > 1)
        assert batch.resolveRoot(x.name) is x, 'job for root %s' % x.name
        assert batch.resolveRoot(m.normed) is x, 'job for normalized root %s' % m.normed
        equal(batch.hasName(x.name), m.parent is None, 'hasName')
        dic = dict(plik='planck', lowl='')
        equal(x.data_set.makeNormedDatatag(dic), '_'.join(sorted(y for y in [dic.get(n, n) for n in m.names] if y)), 'normalized data of ' + x.name)
        equal(x.data_set.hasAll([m.names[0], 'nope']), False, 'hasAll')
        equal(x.data_set.hasName([m.names[-1], 'nope']), True, 'hasName')
        equal(x.data_set.tagReplacing(m.names[0], 'new'), '_'.join(['new'] + m.names[1:]), 'tag replacing')
        equal(x.data_set.tagReplacing(m.names[0], ''), '_'.join(m.names[1:]), 'tag without data')
    absent = [n for n in DATA if n not in ('SN',)]
    for k in range(3):
        ps, ds = shuffled(PARAMS)[:rng.randrange(3)], shuffled(absent)[:1 + rng.randrange(3)]
        normed = '_'.join(['base'] + sorted(ps) + sorted(ds))
        known = [x.name for x, m in by.values() if m.normed == normed]
        if not known:
            equal(batch.resolveName(ps, '_'.join(ds), raiseError=False), None, 'job for parameters %s and data %s' % (ps, ds))
            assert raises(batch.resolveName, ps, '_'.join(ds)), 'a job that does not exist was found'
            assert batch.resolveRoot(normed) is None, 'root that does not exist was found'


@case(st.tuples(specs(), specs(small=True), st.lists(st.booleans(), min_size=12, max_size=12), st.integers(0, 10 ** 6),
                st.sampled_from(['cached', 'reset', 'truncated', 'garbage'])), quick=250, thorough=2500, shards=2)
def stored(c, t):
    """A stored grid is read back the same, or configured again with the chains that exist if its cache is missing or damaged."""
    s, s2, have, cut, how = c
    base = t.dir()
    p = prepare(s, os.path.join(base, 'a'), REPO)
    p2 = prepare(s2, os.path.join(base, 'b'), REPO, module=p['module'])
    with imports():
        of = check_items(make(p), p)
    with imports():
        make(p2)
    existing = []
    for k, j in enumerate(p['full']):
        if have[k % len(have)]:
            d = os.path.join(p['grid'], j.rel)
            write(os.path.join(d, j.name + '_1.txt'), '1 2 3\n')
            existing.append(j)
        elif have[(k + 1) % len(have)]:
            write(os.path.join(p['grid'], j.rel, j.name + '_1.txt'), '')  # created, nothing written yet
    with imports():
        batch2 = quiet(batchjob.readobject, p2['grid'])
        check_items(batch2, p2, what='second grid')
        cache = batchjob.grid_cache_file(p['grid'])
        assert os.path.exists(cache), 'grid not cached'
        if how == 'truncated':
            raw = open(cache, 'rb').read()
            with open(cache, 'wb') as f:
                f.write(raw[:cut % len(raw)])
        elif how == 'garbage':
            with open(cache, 'wb') as f:
                f.write(b'\x80\x04.' + bytes(str(cut), 'ascii'))
        elif how == 'reset':
            quiet(batchjob.resetGrid, p['grid'])
            assert not os.path.exists(cache), 'cached grid not removed'
            batchjob.resetGrid(p2['grid'])
            check_items(quiet(batchjob.readobject, p2['grid']), p2, full=[], what='second grid without chains')
        batch = quiet(batchjob.readobject, p['grid'] + os.sep * (cut % 2))
        check_items(batch, p, full=p['full'] if how == 'cached' else existing, what='grid read (%s)' % how, of=of)
        t.label(how)
        t.nontrivial(how != 'cached' and 0 < len(existing) < len(p['full']))
        again = quiet(batchjob.readobject, p['grid'])
        equal([x.name for x in visible(again)], [x.name for x in visible(batch)], 'grid read again')
        # explicit read-only configuration from the settings
        sub = quiet(gridconfig.makeGrid, p['grid'], readOnly=True)
        check_items(sub, p, full=existing, what='read-only grid', of=of)
        assert quiet(batchjob.readobject, base) is None, 'directory that is no grid was read'
    props = IniFile(os.path.join(p['grid'], 'config', 'config.ini'))
    equal(props.string('setting_file'), p['module'] + '.py', 'setting file')
    equal(read(os.path.join(p['grid'], 'config', p['module'] + '.py')), read(os.path.join(p['sett'], p['module'] + '.py')), 'copied settings')


OPS = st.one_of(
    st.tuples(st.just('chain'), st.sampled_from(['job', 'imp']), st.integers(1, 4), st.sampled_from(['1 2 3\n', '', '1 2 3\n4 5 6\n'])),
    st.tuples(st.just('rm'), st.sampled_from(['job', 'imp']), st.integers(1, 4)),
    st.tuples(st.just('age'), st.sampled_from(['job', 'imp']), st.integers(1, 4), st.sampled_from([0, 100, 250, 350, 400, 1000, 5000])),
    st.tuples(st.just('converge'), st.sampled_from(['job', 'imp']), st.sampled_from([None, '', '0.5', '0.01\nDone', '  0.02\n', '0.3\nDone\n', '0.3\nRunning\n'])),
    st.tuples(st.just('chk'), st.sampled_from(['job', 'imp']), st.booleans()),
    st.tuples(st.just('done'), st.sampled_from(['job', 'imp']), st.sampled_from([100, 350, 1000]), st.sampled_from([100, 400, 5000])),
    st.tuples(st.just('marge'), st.sampled_from(['job', 'imp']), st.sampled_from([None, 0, 200, 380, 2000])))


@case(st.lists(OPS, min_size=1, max_size=14), quick=250, thorough=15000, shards=2)
def state(ops, t):
    """What a grid reports about its chains follows the files, after any history of changes to them."""
    base = t.dir() + os.sep
    job = batchjob.jobItem(base, ['mnu'], batchjob.dataSet(['plik', 'TT']), base='base2')
    job.makeImportance([batchjob.importanceSetting(['BAO'], ['BAO.ini'])])
    imp = job.importanceJobs()[0]
    equal(imp.paramtag, 'base2_mnu', 'parameter tag')
    equal(imp.normed_name, 'base2_mnu_BAO_TT_plik', 'normalized name')
    os.makedirs(job.distPath)
    now = time.time()
    chains = {'job': {}, 'imp': {}}  # i -> [text, age]
    conv = {'job': None, 'imp': None}
    chk = {'job': False, 'imp': False}
    marge = {'job': None, 'imp': None}
    objs = {'job': job, 'imp': imp}
    roots = {'job': base + 'base2_mnu/plik_TT/base2_mnu_plik_TT', 'imp': base + 'base2_mnu/plik_TT/base2_mnu_plik_TT_post_BAO'}
    dist = {k: base + 'base2_mnu/plik_TT/dist/' + os.path.basename(roots[k]) for k in roots}

    def touch(f, age):
        os.utime(f, (now - age, now - age))

    for op in ops:
        k = op[1]
        if op[0] == 'chain':
            chains[k][op[2]] = [op[3], 0]
            touch(write('%s_%d.txt' % (roots[k], op[2]), op[3]), 0)
        elif op[0] == 'rm':
            if chains[k].pop(op[2], None):
                os.remove('%s_%d.txt' % (roots[k], op[2]))
        elif op[0] == 'age':
            if op[2] in chains[k]:
                chains[k][op[2]][1] = op[3]
                touch('%s_%d.txt' % (roots[k], op[2]), op[3])
        elif op[0] == 'done':
            # chains of both, with the first job converged
            for q, age in zip(('job', 'imp'), op[2:]):
                chains[q][1] = ['1 2 3\n', age]
                touch(write('%s_1.txt' % roots[q], '1 2 3\n'), age)
            conv['job'] = '0.01\nDone'
            write(roots['job'] + '.converge_stat', conv['job'])
        elif op[0] == 'converge':
            conv[k] = op[2]
            if op[2] is not None:
                write(roots[k] + '.converge_stat', op[2])
            elif os.path.exists(roots[k] + '.converge_stat'):
                os.remove(roots[k] + '.converge_stat')
        elif op[0] == 'chk':
            chk[k] = op[2]
            f = roots[k] + '_1.chk'
            if op[2]:
                write(f, 'x')
            elif os.path.exists(f):
                os.remove(f)
        elif op[0] == 'marge':
            marge[k] = op[2]
            f = dist[k] + '.margestats'
            if op[2] is not None:
                touch(write(f, 'x'), op[2])
            elif os.path.exists(f):
                os.remove(f)
        # compare with the model
        stat = {}
        for k in ('job', 'imp'):
            o, c = objs[k], chains[k]
            ok = lambda i: i in c and c[i][0] != ''
            for i in (1, 2, 3, 4):
                equal(o.chainExists(i), ok(i), '%s chain %d exists' % (k, i))
                equal(o.allChainExists(i), all(ok(q) for q in range(1, i + 1)), '%s all %d chains exist' % (k, i))
                equal(o.chainNames(i), ['%s_%d.txt' % (roots[k], q) for q in range(1, i + 1)], '%s names of %d chains' % (k, i))
            n = 0
            while ok(n + 1):
                n += 1
            equal(o.chainNames(), ['%s_%d.txt' % (roots[k], q) for q in range(1, n + 1)], k + ' chain names')
            text = conv[k]
            if not text:
                stat[k] = (None, None)
            else:
                lines = text.split('\n')
                stat[k] = (float(lines[0]), len(lines) > 1 and lines[1] == 'Done')
            equal(tuple(o.convergeStat()), stat[k], k + ' convergence')
            for minR in (0, 0.1):
                equal(bool(o.wantCheckpointContinue(minR)), stat[k][0] is not None and chk[k] and not stat[k][1] and stat[k][0] > minR,
                      '%s wants to continue (R>%s)' % (k, minR))
            equal(o.getDistExists(), marge[k] is not None, k + ' getdist output exists')
            equal(o.getDistNeedsUpdate(), ok(1) and (marge[k] is None or c[1][1] < marge[k]), k + ' getdist output needs update')
            equal(o.notRunning(), ok(1) and c[1][1] > 300, k + ' not running')
            if c.get(1):
                i = 1
                ages = []
                while i in c:
                    ages.append(c[i][1])
                    i += 1
                equal(bool(o.chainsDodgy(600)), (i + 1) in c or max(ages) - min(ages) > 600, k + ' chains dodgy')
        if 1 in chains['job']:
            changed = not (1 in chains['imp'] and chains['imp'][1][0] != '') or chains['imp'][1][1] > chains['job'][1][1]
            equal(imp.parentChanged(), changed, 'parent changed')
            equal(bool(imp.chainFinished()), bool(stat['job'][1]) and not changed and chains['imp'][1][1] > 300, 'importance chain finished')
        equal(bool(job.chainFinished()), bool(stat['job'][1]), 'chain finished')
    t.nontrivial(len(ops) > 4)


@st.composite
def filters(draw):
    a = {}
    f = lambda name, pool, hi=2: a.__setitem__(name, draw(st.lists(st.sampled_from(pool), min_size=1, max_size=hi, unique=True))) if draw(st.integers(0, 3)) == 0 else None
    if draw(st.booleans()):
        f('data', DATA + IMP)
        f('skip_data', DATA + FILT)
    else:
        f('datatag', ['plik', 'TT', 'plik_TT', 'TT_plik', 'lowl', 'plik_lowl', 'plik_post_H0', 'BAO', 'BAO_post_H0'], 4)
    f('musthave_data', DATA, 2)
    if draw(st.booleans()):
        f('param', PARAMS)
        f('skip_param', PARAMS)
    else:
        f('paramtag', ['base', 'base_mnu', 'base_omegak', 'base_mnu_omegak', 'base_r'], 3)
    f('name', ['base_*', '*mnu*', '*_post_*', 'base_plik', 'base_[mr]*', '*TT'], 2)
    f('group', ['main', 'ext'])
    f('skip_group', ['main', 'ext'])
    k = draw(st.integers(0, 4))
    if k == 0:
        a['noimportance'] = []
    elif k == 1:
        a['importance'] = draw(st.lists(st.sampled_from(IMP + FILT), max_size=2, unique=True))
    elif k == 2:
        a['importancetag'] = draw(st.lists(st.sampled_from(IMP + FILT + ['BAO_H0', 'H0_BAO', 'lensing_H0']), max_size=2, unique=True))
    return a


@case(st.tuples(specs(), st.lists(filters(), min_size=1, max_size=6), st.lists(st.booleans(), min_size=6, max_size=6)), quick=350, thorough=3000, shards=2)
def selection(c, t):
    """Command-line options select exactly the jobs they describe, in grid order."""
    s, args, have = c
    p = prepare(s, t.dir(), REPO)
    with imports():
        by = check_items(make(p), p)
        for k, (x, m) in enumerate(by.values()):
            if have[k % len(have)]:
                write(x.chainRoot + '_1.txt', '1 2 3\n')
        for a in args:
            argv = [p['grid']] + [z for key in a for z in ['--' + key] + a[key]]
            opts = batchjob_args.batchArgs('x')
            batch, parsed = quiet(opts.parseForBatch, argv)
            for exist in (False, True):
                expect = []
                for x, m in by.values():
                    own = m.own() if m.parent else None
                    if exist and not os.path.exists(os.path.join(p['grid'], m.rel, m.name + '_1.txt')):
                        continue
                    if m.parent and 'noimportance' in a:
                        continue
                    if not m.parent and 'importance' in a:
                        continue
                    if m.parent and a.get('importance') and not set(a['importance']) & set(own):
                        continue
                    if m.parent and a.get('importancetag') and '_'.join(own) not in a['importancetag']:
                        continue
                    if 'name' in a and not any(fnmatch.fnmatchcase(m.name, pat) for pat in a['name']):
                        continue
                    if 'param' in a and not set(a['param']) & set(m.param_set):
                        continue
                    if 'skip_param' in a and set(a['skip_param']) & set(m.param_set):
                        continue
                    if 'paramtag' in a and m.paramtag not in a['paramtag']:
                        continue
                    if 'data' in a and not set(a['data']) & set(m.names):
                        continue
                    if 'skip_data' in a and set(a['skip_data']) & set(m.names):
                        continue
                    if 'musthave_data' in a and not set(a['musthave_data']) <= set(m.names):
                        continue
                    if 'datatag' in a and m.datatag not in a['datatag']:
                        continue
                    if 'group' in a and m.group['name'] not in a['group']:
                        continue
                    if 'skip_group' in a and m.group['name'] in a['skip_group']:
                        continue
                    expect.append(m.name)
                got = [x.name for x in opts.filteredBatchItems(chainExist=exist)]
                equal(got, expect, 'jobs selected by %s' % ' '.join(argv[1:]))
                t.nontrivial(0 < len(expect) < len(by))
                tags = opts.sortedParamtagDict(chainExist=exist)
                want = {}
                for n in expect:
                    want.setdefault(by[n][1].paramtag, []).append(n)
                equal([(tag, [x.name for x in items]) for tag, items in tags], sorted(want.items()), 'jobs by parameter tag')
            equal([x.name for x in opts.filterForDataCompare([x for x, _ in by.values()], ['TT_plik', 'lowl'])],
                  [n for tag in (['plik', 'TT'], ['lowl']) for n, (x, m) in by.items() if sorted(m.names) == sorted(tag)], 'data comparison')


@case(st.tuples(st.lists(gridspec.datasets(), min_size=1, max_size=3), st.lists(st.tuples(st.integers(0, 2), st.sampled_from(DATA + IMP), st.booleans()), max_size=6)),
      quick=400, thorough=10000)
def data_sets(c, t):
    """Data sets built from shared lists, by adding and copying, are independent of each other."""
    dsets, ops = c
    lists = [list(d['names']) for d in dsets]
    inis = [['x%d' % i, 'y.ini'] for i in range(len(dsets))]
    sett = {'ignore_rows': 0.2}
    objs = [batchjob.dataSet(a, b, dist_settings=sett) for a, b in zip(lists, inis)] + [batchjob.dataSet(lists[0], inis[0], dist_settings=sett)]
    want = [[list(a), [x if x.endswith('.ini') else x + '.ini' for x in b], dict(sett)] for a, b in zip(lists, inis)]
    want.append([list(want[0][0]), list(want[0][1]), dict(sett)])
    for i, name, end in ops:
        i = i % len(objs)
        if end:
            objs[i].addEnd(name, [name], dist_settings={name: 1})
            want[i][1] = want[i][1] + [name + '.ini']
        else:
            objs[i].add(name, dist_settings={name: 2})
            want[i][1] = [name + '.ini'] + want[i][1]
        want[i][0] = want[i][0] + [name]
        want[i][2][name] = 1 if end else 2
        objs.append(objs[i].copy())
        want.append(copy.deepcopy(want[i]))
        for o, w in zip(objs, want):
            equal(list(o.names), w[0], 'names of data set')
            equal(o.tag, '_'.join(w[0]), 'tag of data set')
            equal(list(o.params), w[1], 'inis of data set')
            equal(dict(o.dist_settings), w[2], 'settings of data set')
    equal(lists, [d['names'] for d in dsets], "caller's names")
    equal(inis, [['x%d' % i, 'y.ini'] for i in range(len(dsets))], "caller's inis")
    equal(sett, {'ignore_rows': 0.2}, "caller's settings")
    t.nontrivial(len(ops) > 1)
