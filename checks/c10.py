import os
import pickle
import numpy as np
from hypothesis import strategies as st
from vlib import case, close, equal, raises, write, read
import samp
from gen import seeds, name_list, words
from getdist import MCSamples, loadMCSamples
from getdist.mcsamples import getRootFileName
from getdist.chains import WeightedSamples, Chains, chainFiles, findChainFileRoot, hasChainFiles, loadNumpyTxt
from getdist.inifile import IniFile
from getdist.paramnames import ParamNames

RULE = ('generated chain directories: 1-4 chains, both separators, empty/commented files, unrelated neighbours with '
        'similar names, burn settings from settings/properties files; non-trivial: several chains, burn or neighbours')
ASSUMPTIONS = ['values are kept to the 9 significant digits written', 'files listed in any order']

label_text = words('abcXYZ012_\\{}^ ', 0, 8).map(lambda s: s.strip())


@st.composite
def sets(draw):
    nch = draw(st.integers(1, 4))
    d = draw(st.integers(1, 4))
    w = draw(st.sampled_from(['unit', 'int', 'float', 'importance']))
    names = draw(st.lists(st.sampled_from(['x', 'y', 'omega_m', 'H0', 'a.b', 'a.c', 'w', 'p8', 'x1']), min_size=d, max_size=d,
                          unique=True))
    return dict(chains=[draw(samp.specs(min_rows=4, max_rows=20, min_d=1, max_d=1, weights=(w,), loglikes=True,
                                        kinds=('normal', 'corr', 'scaled', 'offset', 'ties'))) for _ in range(nch)],
                names=names, labels=[draw(label_text) for _ in names], nder=draw(st.integers(0, d)),
                likes=draw(st.booleans()), label=draw(st.sampled_from([None, 'Planck', r'$\Lambda$CDM', 'a = b'])),
                ranges=[[draw(st.sampled_from([None, -1e9, -2e8])), draw(st.sampled_from([None, 1e9, 3e8]))] for _ in names])


def data_of(c, zero_likes=True):
    out = []
    for s in c['chains']:
        x, w, ll, _ = samp.make(dict(s, d=len(c['names'])))
        out.append((x, np.ones(len(x)) if w is None else w, ll))
    return out


def make_mc(c, settings=None):
    data = data_of(c)
    names = [n + ('*' if i >= len(c['names']) - c['nder'] else '') for i, n in enumerate(c['names'])]
    return MCSamples(samples=[x.copy() for x, _, _ in data], weights=[w.copy() for _, w, _ in data],
                     loglikes=[l.copy() for _, _, l in data] if c['likes'] else None, names=names, labels=c['labels'],
                     label=c['label'], ranges=dict(zip(c['names'], c['ranges'])),
                     settings=dict(settings or {}, **({} if settings and 'ignore_rows' in settings else {'ignore_rows': 0}))), data


def sort_chains(chs):
    return sorted(chs, key=lambda ch: tuple(float('%.7e' % v) for v in ch[0][0]) + (len(ch[0]),))


def same_chains(s, data, likes, note='', rtol=6e-9):
    got = sort_chains([(ch.samples, ch.weights, ch.loglikes) for ch in s.getSeparateChains()])
    want = sort_chains(data)
    equal(len(got), len(want), 'number of chains ' + note)
    for (x, w, l), (x0, w0, l0) in zip(got, want):
        close(x, x0, rtol=rtol, atol=1e-300, what='samples ' + note)
        close(w, w0, rtol=rtol, what='weights ' + note)
        if likes:
            close(l, l0, rtol=rtol, what='likelihoods ' + note)
        else:
            assert l is None or not np.any(l), 'likelihoods appeared ' + note


def same_meta(s, c, note=''):
    equal(s.paramNames.list(), c['names'], 'names ' + note)
    # an empty label means the name
    equal([p.label or p.name for p in s.paramNames.names], [l or n for l, n in zip(c['labels'], c['names'])], 'labels ' + note)
    equal([p.isDerived for p in s.paramNames.names],
          [i >= len(c['names']) - c['nder'] for i in range(len(c['names']))], 'derived flags ' + note)
    for n, (lo, hi) in zip(c['names'], c['ranges']):
        equal([s.ranges.getLower(n), s.ranges.getUpper(n)], [lo, hi], 'range ' + note)


@case(st.tuples(sets(), st.sampled_from(['chains', 'single', 'single.txt']), st.booleans(), st.booleans(), st.booleans()),
      quick=600, shards=2)
def round_trip(c, t):
    c, how, subdir, relative, props = c
    s, data = make_mc(c)
    # distinct first rows are needed to pair chains up
    firsts = [tuple('%.6e' % v for v in x[0]) for x, _, _ in data]
    if len(set(firsts)) < len(firsts):
        return
    t.nontrivial(len(data) > 1)
    d = t.dir()
    if relative:
        os.chdir(d)
        root = 'out/ch' if subdir else 'ch'
    else:
        root = os.path.join(d, 'out', 'ch') if subdir else os.path.join(d, 'ch')
    kw = dict(make_dirs=subdir)
    t.label('relative root', relative)
    if how == 'chains':
        if props:
            kw['properties'] = {'extra': 'text', 'burn_removed': 'T'}
        s.saveChainsAsText(root, **kw)
        files = {'ch_%d.txt' % (i + 1) for i in range(len(data))}
    else:
        s.saveAsText(root + ('.txt' if how == 'single.txt' else ''), **kw)
        files = {'ch.txt'}
    got_files = set(os.listdir(os.path.dirname(root) or '.'))
    want_files = files | {'ch.paramnames', 'ch.ranges'}
    assert got_files - {'ch.properties.ini'} == want_files, 'files %s' % sorted(got_files)
    settings = {'ignore_rows': 0}
    if how == 'chains' and props:
        settings = {'ignore_rows': 0.4}  # burn is marked as removed, so the setting must not apply
    s2 = loadMCSamples(root, no_cache=True, settings=settings)
    same_meta(s2, c)
    if how == 'chains':
        same_chains(s2, data, c['likes'])
        if props:
            equal(s2.properties.params.get('extra'), 'text', 'property')
    else:
        x, w, l = [np.concatenate([p[k] for p in data]) for k in range(3)]
        close(s2.samples, x, rtol=6e-9, atol=1e-300, what='samples')
        close(s2.weights, w, rtol=6e-9, what='weights')
        if c['likes']:
            close(s2.loglikes, l, rtol=6e-9, what='likelihoods')
    equal(s2.label, c['label'], 'label')
    if c['likes']:
        close(s2.getLikeStats().logLike_sample, s.getLikeStats().logLike_sample, rtol=1e-8, what='best likelihood')
    # saving again changes nothing
    root2 = os.path.join(t.dir(), 'again')
    (s2.saveChainsAsText if how == 'chains' else s2.saveAsText)(root2)
    for ext in ['.paramnames', '.ranges']:
        equal(read(root2 + ext), read(root + ext), 'second save of ' + ext)
    f1 = sorted(read(f) for f in chainFiles(root))
    f2 = sorted(read(f) for f in chainFiles(root2))
    equal(f2, f1, 'chain files saved a second time')
    # pickled copies
    pk = os.path.join(d, 'p.pkl')
    s.savePickle(pk)
    with open(pk, 'rb') as f:
        s3 = pickle.load(f)
    same_meta(s3, c, 'of pickle')
    close(s3.samples, s.samples, what='pickled samples')
    # names-only API
    ch = Chains(root)
    equal(ch.paramNames.list(), c['names'], 'names from root')
    ch.loadChains(root, chainFiles(root))
    equal(sum(len(q.samples) for q in ch.getSeparateChains()), sum(len(p[0]) for p in data), 'rows')


@case(st.tuples(sets(), st.sampled_from([0, 0.2, 0.3, 0.5, 2]), st.sampled_from([0, 0.25, 0.5, 3]),
                st.sampled_from(['none', 'prop_rows', 'prop_removed'])), quick=400)
def burn(c, t):
    """burn-in is removed from each chain once: by the properties file if it says so, else the settings; and not again
    from chains saved after removal"""
    c, ign, prop_ign, mode = c
    data = data_of(c)
    firsts = [tuple('%.6e' % v for v in r) for x, _, _ in data for r in x]
    if len(set(firsts)) < len(firsts):
        return
    d = t.dir()
    root = os.path.join(d, 'ch')
    for i, (x, w, l) in enumerate(data):
        np.savetxt(root + '_%d.txt' % (i + 1), np.c_[w, l, x], fmt='%.12e')
    write(root + '.paramnames', ''.join('%s\n' % n for n in c['names']))
    eff = ign
    if mode == 'prop_rows':
        write(root + '.properties.ini', 'ignore_rows = %s\nsampler = mcmc\n' % prop_ign)
        eff = prop_ign
    elif mode == 'prop_removed':
        write(root + '.properties.ini', 'burn_removed = T\nlabel = the label\n')
        eff = 0
    want = []
    for x, w, l in data:
        k = int(eff) if eff >= 1 else int(round(len(x) * eff))
        want.append((x[k:], w[k:], l[k:]))
    if any(len(p[0]) < 2 for p in want):
        return
    if any(np.ptp(np.vstack([p[0] for p in want])[:, j]) == 0 for j in range(len(c['names']))):
        return
    t.nontrivial(eff > 0 or mode != 'none')
    s = loadMCSamples(root, no_cache=True, settings={'ignore_rows': ign})
    same_chains(s, want, True, 'after burn removal', rtol=1e-11)
    if mode == 'prop_removed':
        equal(s.label, 'the label', 'label from properties')
    root2 = os.path.join(t.dir(), 'saved')
    s.saveChainsAsText(root2)
    if eff or mode == 'prop_removed':
        s2 = loadMCSamples(root2, no_cache=True, settings={'ignore_rows': 0.3})
        same_chains(s2, want, True, 'saved after burn removal', rtol=1e-8)
        t.label('reloaded')


@st.composite
def raw_files(draw):
    nch = draw(st.integers(0, 4))
    idx = draw(st.lists(st.integers(1, 12), min_size=nch, max_size=nch, unique=True))
    return dict(sep=draw(st.sampled_from(['_', '.'])), idx=idx, plain=draw(st.booleans()) or not idx,
                header=draw(st.booleans()), empty=draw(st.booleans()), d=draw(st.integers(1, 3)), seed=draw(seeds),
                fmt=draw(st.sampled_from(['%.10e', '%.10g', '%16.10E', '%.10f'])), rows=draw(st.integers(5, 12)),
                ranges=draw(st.booleans()), skip=draw(st.integers(0, 2)))


@case(raw_files(), quick=400)
def raw(c, t):
    """text chain files: weight, -log(like), parameters; comments ignored; empty files ignored; all chains found"""
    r = np.random.RandomState(c['seed'])
    d = t.dir()
    root = os.path.join(d, 'ab-c+1')
    nums = ([None] if c['plain'] else []) + c['idx']
    data = []
    for q in nums:
        x = np.round(r.normal(size=(c['rows'], c['d'])) * 100, 4)
        w = r.randint(1, 9, size=c['rows']).astype(float)
        l = np.round(r.gamma(2, 3, size=c['rows']) + 2, 3)
        data.append((x, w, l))
        tx = ''
        if c['header'] and not c['skip']:
            tx += '#    weight  minuslogpost  p1 p2 p3\n'
        for a, b, row in zip(w, l, x):
            tx += '   '.join(c['fmt'] % v for v in [a, b] + list(row)) + '\n'
        write(root + ('' if q is None else '%s%d' % (c['sep'], q)) + '.txt', tx)
    if c['empty']:
        write(root + c['sep'] + '13.txt', '# nothing here\n')
    # neighbours that are not chains of this root
    for n in ['ab-c+1x.txt', 'ab-c+1_1.dat', 'xab-c+1_1.txt', 'ab-c+1_a.txt', 'ab-cc1_1.txt', 'ab-c+1_1_2.txt', 'ab-c+1.txt.bak']:
        write(os.path.join(d, n), '1 2 3 4 5 6 7\n')
    write(root + '.paramnames', ''.join('p%d\n' % i for i in range(c['d'])))
    if c['ranges']:
        write(root + '.ranges', 'p0 -1e5 N\n')
    t.nontrivial(len(nums) > 1 or c['empty'])
    files = chainFiles(root, separator=c['sep'])
    want = {root + ('' if q is None else '%s%d' % (c['sep'], q)) + '.txt' for q in nums} | \
        ({root + c['sep'] + '13.txt'} if c['empty'] else set())
    equal(sorted(files), sorted(want), 'chain files')
    settings = {'ignore_rows': c['skip']}
    if c['plain'] and c['idx'] and c['sep'] == '.':
        # with the Cobaya separator the numbered files are only looked for if there is no plain file
        ch = Chains(root, ignore_rows=c['skip'])
        ch.loadChains(root, files)
        got = [(q.samples, q.weights, q.loglikes) for q in ch.chains]
    else:
        try:
            s = loadMCSamples(root, no_cache=True, settings=settings)
        except Exception:
            if c['empty'] and not data:
                return
            raise
        got = [(q.samples, q.weights, q.loglikes) for q in s.getSeparateChains()]
        equal([s.ranges.getLower('p0'), s.ranges.getUpper('p0')], [-1e5 if c['ranges'] else None, None], 'range')
    if c['skip']:
        data = [tuple(a[c['skip']:] for a in p) for p in data]
    got, data = sort_chains(got), sort_chains(data)
    equal(len(got), len(data), 'chains')
    for p, q in zip(got, data):
        for a, b, n in zip(p, q, ['samples', 'weights', 'likelihoods']):
            close(a, b, rtol=1e-9, atol=1e-9, what=n)
    # a plain table of numbers
    one = WeightedSamples(files[0], files_are_chains=False) if not c['empty'] else None
    if one is not None:
        equal(one.samples.shape[1], c['d'] + 2, 'columns of plain table')
        assert one.loglikes is None and np.all(one.weights == 1), 'weights of plain table'
        a = loadNumpyTxt(files[0])
        close(one.samples, a, what='plain table')
    else:
        assert raises(WeightedSamples, root + c['sep'] + '13.txt'), 'empty chain accepted'


NAMES = st.sampled_from(['a', 'a', 'ab', 'a.b', 'a_1', 'a+'])


@st.composite
def trees(draw):
    dirs = [''] * 3 + draw(st.lists(st.sampled_from(['d1', 'd2', 'd1/e1', 'd1/e2', 'd2/e1/f']), max_size=3, unique=True))
    root = draw(NAMES)
    files = draw(st.lists(st.tuples(st.sampled_from(dirs), st.one_of(st.just(root), NAMES), st.sampled_from(['_', '_', '.', '', 'x']),
                                    st.sampled_from([1, 2, 3, '', 0, 10]), st.sampled_from(['.txt', '.txt', '.txt', '.dat'])),
                          min_size=2, max_size=9))
    return dict(files=files, root=root, dir=draw(st.sampled_from(['', '', 'd1', 'e1', 'd2/e1'])),
                sep=draw(st.sampled_from(['_', '_', '.'])), first=draw(st.sampled_from([0, 0, 1, 2])),
                last=draw(st.sampled_from([-1, -1, 1, 2, 5])),
                indices=draw(st.one_of(st.none(), st.just([1, 2, 4]), st.lists(st.integers(0, 4), max_size=3))),
                exclude=draw(st.one_of(st.none(), st.lists(st.integers(0, 4), max_size=2))),
                ext=draw(st.sampled_from(['.txt', '.txt', '.dat'])), sub=draw(st.booleans()))


def parts(name, root, sep, ext):
    """chain number if name belongs to root, else None"""
    if not name.startswith(root) or not name.endswith(ext):
        return None
    mid = name[len(root):len(name) - len(ext)] if len(name) >= len(root) + len(ext) else None
    if mid is None:
        return None
    if mid == '':
        return 0
    if mid[0] == sep and mid[1:].isdigit():
        return int(mid[1:])
    return None


@case(trees(), quick=1200)
def find_files(c, t):
    d = t.dir()
    names = set()
    for sub, n, sep, num, ext in c['files']:
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        f = os.path.join(sub, n + (sep + str(num) if num != '' or sep == 'x' else '') + ext)
        write(os.path.join(d, f), '')
        names.add(f)
    sel = []
    root = os.path.join(d, c['root'])
    for f in names:
        if os.path.dirname(f):
            continue
        k = parts(f, c['root'], c['sep'], c['ext'])
        if k is None or k < c['first'] or (c['last'] >= 0 and k > c['last']):
            continue
        if c['indices'] is not None and k not in c['indices'] or c['exclude'] is not None and k in c['exclude']:
            continue
        sel.append(os.path.join(d, f))
    got = chainFiles(root, c['indices'], c['ext'], c['sep'], c['first'], c['last'], c['exclude'])
    equal(sorted(got), sorted(sel), 'selected chain files')
    t.nontrivial(len(sel) > 0)

    def has(dr, root):
        dd, base = os.path.split(os.path.join(dr, root))
        return any(parts(os.path.basename(f), base, s, '.txt') in (0, 1) for f in names if os.path.dirname(f) == dd
                   for s in '_.')

    equal(bool(hasChainFiles(root)), has('', c['root']), 'presence of chains')
    # search under the directory
    dirs = {''}
    for f in names:
        p = os.path.dirname(f)
        while p:
            dirs.add(p)
            p = os.path.dirname(p)
    rel = os.path.join(c['dir'], c['root'])
    # directories in which the relative root could be
    cands = [os.path.join(q, rel) for q in sorted(dirs) if os.path.isdir(os.path.join(d, q, c['dir']))] if c['sub'] \
        else ([rel] if os.path.isdir(os.path.join(d, c['dir'])) else [])
    found = [os.path.join(d, q) for q in cands if has(os.path.dirname(q), os.path.basename(q))]
    if c['dir']:
        # a relative path is only looked for in directories that have it
        if not all(os.path.isdir(os.path.join(d, q, c['dir'])) for q in (dirs if c['sub'] else {''})):
            return
    res = findChainFileRoot(d, rel, search_subdirectories=c['sub'])
    if not found:
        assert res is None, 'found %r, there are no chains' % res
    else:
        t.label('found')
        assert res in found, 'found %r, expected one of %r' % (res, found)
        if os.path.join(d, rel) in found:
            equal(res, os.path.join(d, rel), 'chain in the directory itself')


@case(st.tuples(sets(), sets(), st.sampled_from([None, [1, 1], [1, 3], [0.25, 0.5]])), quick=300)
def combine(c, t):
    a, b, sw = c
    sa, da = make_mc(a)
    sb, db = make_mc(b)
    common = [n for n in b['names'] if n in a['names']]
    if not common:
        return
    t.nontrivial(len(common) < len(a['names']) or sw not in (None, [1, 1]))
    res = sa.getCombinedSamplesWithSamples(sb, None if sw is None else tuple(sw))
    equal(res.paramNames.list(), common, 'common parameters')
    wa, wb = sa.weights, sb.weights
    if sw is not None:
        wa, wb = wa * sw[0], wb * sw[1] * wa.sum() / wb.sum()
    w = np.concatenate([wa, wb])
    close(res.weights, w, rtol=1e-12, what='combined weights')
    for n in common:
        close(res[n], np.concatenate([sa[n], sb[n]]), what='combined samples')
        close(res.mean(n), w.dot(np.concatenate([sa[n], sb[n]])) / w.sum(), rtol=1e-9,
              atol=1e-9 * max(np.abs(sa[n]).max(), np.abs(sb[n]).max()), what='combined mean')
        equal(res.paramNames.parWithName(n).label, dict(zip(b['names'], b['labels']))[n] or n, 'label')
    if a['likes'] and b['likes']:
        close(res.loglikes, np.concatenate([sa.loglikes, sb.loglikes]), what='combined likelihoods')
    else:
        assert res.loglikes is None, 'likelihoods of combined samples'
    if sw == [1, 1]:
        close(w[:len(wa)].sum(), w[len(wa):].sum(), what='total weight of each set')


@case(st.lists(st.tuples(st.sampled_from(['a', 'b_c', 'zz']), st.integers(1, 3)), max_size=4), quick=100)
def root_of_dir(c, t):
    d = t.dir()
    for n, k in c:
        write(os.path.join(d, '%s_%d.txt' % (n, k)), '')
    write(os.path.join(d, 'a.paramnames'), '')
    t.nontrivial(len(c) > 1)
    r = getRootFileName(d)
    if not c:
        equal(r, '', 'root of empty directory')
    elif len({n for n, _ in c}) == 1:
        equal(r, os.path.join(d, c[0][0]), 'root of directory')


@case(st.tuples(st.lists(st.tuples(st.sampled_from(['array', 'list', 'root', 'load', 'copy']), st.sampled_from([None, 0, 0.5, 3, 0.25])), min_size=2, max_size=5),
                st.sampled_from([None, {}, {'smooth_scale_1D': 0.4}, {'ignore_rows': 0}, {'ignore_rows': 2}, {'ignore_rows': 0.2, 'fine_bins': 512}]), seeds), quick=300, thorough=6000)
def shared_settings(c, t):
    """Settings given to several sample sets are used for each, unchanged by burn-in options of the others."""
    ops, settings, seed = c
    r = np.random.RandomState(seed)
    given = None if settings is None else dict(settings)
    d = t.dir()
    t.nontrivial(any(i is not None for _, i in ops) and settings is not None)
    for k, (how, ignore) in enumerate(ops):
        n = 20 + 4 * k
        x = np.round(r.normal(size=(n, 2)), 6)
        kw = {} if ignore is None else {'ignore_rows': ignore}
        root = os.path.join(d, 'run%d' % k)
        cut = ignore if ignore is not None else (settings or {}).get('ignore_rows', 0.3)
        if how in ('root', 'load'):
            np.savetxt(root + '_1.txt', np.column_stack([np.ones(n), np.zeros(n), x]))
            write(root + '.paramnames', 'x x\ny y\n')
        if how == 'array':
            s = MCSamples(samples=x.copy(), names=['x', 'y'], settings=given, **kw)
        elif how == 'list':
            s = MCSamples(samples=[x.copy(), x.copy()], names=['x', 'y'], settings=given, **kw)
        elif how == 'root':
            s = MCSamples(root, settings=given, **kw)
            s.readChains([root + '_1.txt'])
        elif how == 'load':
            s = loadMCSamples(root, settings=given)
            cut = (settings or {}).get('ignore_rows', 0.3)
        else:
            s = MCSamples(samples=x.copy(), names=['x', 'y'], settings={'ignore_rows': 0}).copy(settings=given)
            cut = 0
        keep = x[int(round(n * cut)):] if cut < 1 else x[int(cut):]
        rows = sorted(float(v) for ch in (s.chains or [s]) for v in ch.samples[:, 0])
        close(rows, sorted(keep[:, 0].tolist() * (2 if how == 'list' else 1)), rtol=1e-9, what='rows of set %d (%s) with burn in %s' % (k, how, cut))
        for key, v in (settings or {}).items():
            if key != 'ignore_rows':
                equal(getattr(s, key), v, 'setting %s of set %d' % (key, k))
        equal(given, settings, 'settings of the caller after set %d' % k)


@case(st.tuples(st.sampled_from(['array', 'list', 'root', 'load', 'chain', 'change']), st.sampled_from([None, None, 1e-30, 0.2, 1e-8, 0, -1]), st.integers(1, 3),
                st.sampled_from(['decades', 'decades', 'huge', 'int', 'even']), st.booleans(), seeds), quick=400, thorough=8000)
def tiny_weights(c, t):
    """Rows of a chain with less than the given fraction of its largest weight are left out, and no others."""
    how, ratio, nch, kind, likes, seed = c
    r = np.random.RandomState(seed)
    d = t.dir()
    if how in ('array', 'chain', 'change'):
        nch = 1
    data = []
    for k in range(nch):
        n = r.randint(6, 25)
        w = {'decades': 10 ** r.uniform(-45, 2, n), 'huge': 10 ** r.uniform(-33, 90, n), 'int': r.randint(0, 7, n) * 1., 'even': np.ones(n)}[kind]
        w[:2] = w.max() or 2
        w = r.permutation(w)
        # (as written to files)
        data.append([np.array([[float('%.8e' % v) for v in row] for row in q]) for q in (np.column_stack([w, r.normal(size=n) + 50, r.normal(size=(n, 2))]),)][0])
    real = 1e-30 if ratio is None else ratio
    t.nontrivial(any(q[:, 0].min() < real * q[:, 0].max() for q in data))
    settings = {'ignore_rows': 0}
    if ratio is not None:
        settings['min_weight_ratio'] = ratio
    x, w, ll = [[q[:, 2:].copy() for q in data], [q[:, 0].copy() for q in data], [q[:, 1].copy() for q in data]]
    kw = dict(names=['x', 'y'], settings=settings)
    if how == 'array':
        s = MCSamples(samples=x[0], weights=w[0], loglikes=ll[0] if likes else None, **kw)
    elif how == 'list':
        s = MCSamples(samples=x, weights=w, loglikes=ll if likes else None, **kw)
    elif how == 'chain':
        s = WeightedSamples(samples=x[0], weights=w[0], loglikes=ll[0] if likes else None, **({} if ratio is None else {'min_weight_ratio': ratio}))
    elif how == 'change':
        s = MCSamples(samples=x[0][:1], **kw)
        s.setSamples(x[0], w[0], ll[0] if likes else None)
    else:
        likes = True
        root = os.path.join(d, 'run')
        for k, q in enumerate(data):
            np.savetxt('%s_%d.txt' % (root, k + 1), q, fmt='%.8e')
        write(root + '.paramnames', 'x x\ny y\n')
        if how == 'load':
            s = loadMCSamples(root, settings=settings)
        else:
            s = MCSamples(root, settings=settings)
            s.readChains(['%s_%d.txt' % (root, k + 1) for k in range(nch)])
    keep = []
    for q in data:
        low = q[:, 0] <= real * q[:, 0].max() if q[:, 0].min() < real * q[:, 0].max() else np.zeros(len(q), dtype=bool)
        keep.append(q[~low])
    got = s.getSeparateChains() if nch > 1 else [s]
    equal(len(got), len(keep), 'number of chains')
    if how == 'load':  # in the order of the directory
        first = lambda q: float(q[0, 0])
        got = sorted(got, key=lambda a: first(a.samples))
        keep.sort(key=lambda q: first(q[:, 2:]))
    for a, q in zip(got, keep):
        close(a.samples, q[:, 2:], rtol=1e-12, what='samples kept')
        close(a.weights, q[:, 0], rtol=1e-12, what='weights kept')
        if likes:
            close(a.loglikes, q[:, 1], rtol=1e-12, what='log likelihoods kept')
    equal(s.numrows, sum(map(len, keep)), 'number of rows')
