import os
import getdist
import numpy as np
from hypothesis import strategies as st
from vlib import case, close, equal, raises, write
import samp
from gen import seeds
from getdist import loadMCSamples

RULE = ('histories of loads with varying settings, chain/range/name/property file edits, file removal and cache '
        'corruption/truncation, with a logical clock for file times; every cached load is compared with an uncached '
        'load of the same files; non-trivial: >=2 loads with an edit or settings change between')
ASSUMPTIONS = ['an edited file has a later modification time than the cache written before the edit']

SETTINGS = st.sampled_from([None, None, {}, {'ignore_rows': 0}, {'ignore_rows': 0.2}, {'ignore_rows': 2},
                            {'contours': '0.5 0.9'}, {'contours': [0.68, 0.95]}, {'range_confidence': 0.05},
                            {'smooth_scale_1D': 0.4}, {'fine_bins': 200}, {'limits[x]': '-20 30'}, {'num_bins': 30},
                            {'min_weight_ratio': 0.2}, {'boundary_correction_order': 0, 'smooth_scale_1D': 0.3},
                            {'credible_interval_threshold': 0.5}, {'max_frac_twotail1': 0.9, 'force_twotail': True}])
OPS = st.one_of(
    st.tuples(st.just('load'), SETTINGS), st.tuples(st.just('load'), SETTINGS), st.tuples(st.just('load'), SETTINGS),
    st.tuples(st.just('load_ini'), st.sampled_from([{'fine_bins': 128}, {'contours': '0.3 0.8', 'ignore_rows': '0'}])),
    st.tuples(st.just('chain'), st.integers(1, 3), seeds),
    st.tuples(st.just('append'), st.integers(1, 3), seeds),
    st.tuples(st.just('remove'), st.integers(1, 3)),
    st.tuples(st.just('ranges'), st.sampled_from(['', 'x -9 9\n', 'y N 50\n', 'x -12 N\ny -7.5 N\n', None])),
    st.tuples(st.just('names'), st.sampled_from(['x\ny\n', 'x X\ny* Y\n', 'y\nx\n'])),
    st.tuples(st.just('props'), st.sampled_from(['burn_removed = T\n', 'ignore_rows = 3\n', 'label = lab\n',
                                                 'sampler = nested\n', None])),
    st.tuples(st.just('no_cache'), SETTINGS),
    st.tuples(st.just('truncate'), st.floats(0, 1)),
    st.tuples(st.just('edit_result')),
)


def chain_text(seed, n=None):
    r = np.random.RandomState(seed)
    n = n or r.randint(60, 100)
    return ''.join('%d %.4f %.6f %.6f\n' % (r.randint(1, 4), r.gamma(2, 1), r.normal(), r.normal(2, 3)) for _ in range(n))


def snapshot(s):
    out = dict(names=s.paramNames.list(), labels=[p.label for p in s.paramNames.names],
               derived=[p.isDerived for p in s.paramNames.names], label=s.label, sampler=s.sampler)
    order = np.lexsort(np.c_[s.samples, s.weights].T)
    out['x'] = s.samples[order]
    out['w'] = s.weights[order]
    out['l'] = s.loglikes[order]
    out['ranges'] = [[s.ranges.getLower(n), s.ranges.getUpper(n)] for n in ['x', 'y']]
    out['contours'] = [float(v) for v in s.contours]
    out['chains'] = sorted(len(c.samples) for c in s.getSeparateChains())
    m = s.getMargeStats()
    out['marge'] = [[p.mean, p.err] + [v for l in p.limits for v in (l.lower, l.upper)] for p in m.names if p.err]
    out['tags'] = [[l.limitTag() for l in p.limits] for p in m.names if p.err]
    out['grid'] = [[d.x.size, d.x[0], d.x[-1], d.P.sum()] for d in (s.get1DDensity(n) for n in s.paramNames.list())]
    return out


def same(a, b, note):
    for k in ['names', 'labels', 'derived', 'label', 'sampler', 'ranges', 'contours', 'chains', 'tags']:
        equal(a[k], b[k], '%s %s' % (k, note))
    for k in ['x', 'w', 'l']:
        close(a[k], b[k], rtol=1e-12, what='%s %s' % (k, note))
    # chains may be listed in another order
    close(a['marge'], b['marge'], rtol=1e-5, atol=1e-5, what='summary ' + note)
    close(a['grid'], b['grid'], rtol=1e-5, what='density ' + note)


@case(st.tuples(st.lists(st.integers(1, 3), min_size=1, max_size=3, unique=True), seeds, st.lists(OPS, min_size=2, max_size=9),
                st.booleans(), st.sampled_from([False, False, True])), quick=400, shards=4)
def transparent(c, t):
    idx, seed, ops, relative, beside = c
    d = t.dir()
    cdir = d if beside else t.dir()  # without a cache directory the cache is next to the chain
    getdist.cache_dir = '' if beside else cdir
    root = os.path.join(d, 'ch')
    clock = [1000000000]

    def put(path, text):
        clock[0] += 10
        write(path, text)
        os.utime(path, (clock[0], clock[0]))

    def stamp():
        clock[0] += 10
        for f in os.listdir(cdir):
            f = os.path.join(cdir, f)
            if os.path.getmtime(f) > 1500000000:
                os.utime(f, (clock[0], clock[0]))

    put(root + '.paramnames', 'x\ny\n')
    for i in idx:
        put(root + '_%d.txt' % i, chain_text(seed + i))
    loads = changes = 0
    for op in ops:
        if op[0] in ('load', 'no_cache', 'load_ini'):
            have = [f for f in os.listdir(d) if f.endswith('.txt')]
            kw = {}
            if op[0] == 'load_ini':
                put(os.path.join(cdir, 'set.ini'), ''.join('%s = %s\n' % kv for kv in sorted(op[1].items())))
                kw['ini'] = os.path.join(cdir, 'set.ini')
            elif op[1] is not None:
                kw['settings'] = dict(op[1])
            r = root
            if relative:
                os.chdir(d)
                r = 'ch'
            if not have:
                assert raises(loadMCSamples, r, **kw), 'samples loaded without chain files'
                continue
            s = loadMCSamples(r, no_cache=op[0] == 'no_cache', **kw)
            stamp()
            keep = {f: open(os.path.join(cdir, f), 'rb').read() for f in os.listdir(cdir)}
            times = {f: os.path.getmtime(os.path.join(cdir, f)) for f in keep}
            if 'settings' in kw:
                kw['settings'] = dict(op[1])
            try:
                ref = loadMCSamples(r, no_cache=True, **kw)
            finally:
                for f, b in keep.items():
                    with open(os.path.join(cdir, f), 'wb') as o:
                        o.write(b)
                    os.utime(os.path.join(cdir, f), (times[f], times[f]))
            same(snapshot(s), snapshot(ref), 'of load %d with %s' % (loads + 1, kw))
            loads += 1
            t.label('cached' if any(f.endswith('.py_mcsamples') for f in keep) else 'not cached')
            continue
        changes += 1
        if op[0] == 'chain':
            put(root + '_%d.txt' % op[1], chain_text(op[2]))
        elif op[0] == 'append':
            f = root + '_%d.txt' % op[1]
            if os.path.exists(f):
                put(f, open(f).read() + chain_text(op[2], 10))
        elif op[0] == 'remove':
            f = root + '_%d.txt' % op[1]
            if os.path.exists(f):
                os.remove(f)
                t.label('removed')
        elif op[0] in ('ranges', 'names', 'props'):
            f = root + {'ranges': '.ranges', 'names': '.paramnames', 'props': '.properties.ini'}[op[0]]
            if op[1] is None:
                if os.path.exists(f):
                    os.remove(f)
            else:
                put(f, op[1])
        elif op[0] == 'truncate':
            for f in os.listdir(cdir):
                if f.endswith('.py_mcsamples'):
                    f = os.path.join(cdir, f)
                    b = open(f, 'rb').read()
                    tm = os.path.getmtime(f)
                    with open(f, 'wb') as o:
                        o.write(b[:int(len(b) * op[1])])
                    os.utime(f, (tm, tm))
                    t.label('truncated')
        elif op[0] == 'edit_result' and loads:
            # what a user does with a loaded object does not leak into later loads
            s.filter(s.weights > 1) if np.sum(s.weights > 1) > 25 else s.cool(1.1)
            if not s.paramNames.parWithName('x2'):
                s.addDerived(s['x'] ** 2, 'x2')
            s.updateSettings({'contours': [0.1, 0.4]})
    t.nontrivial(loads >= 2 and (changes or len({str(o) for o in ops if o[0] == 'load'}) > 1))
    # two roots never share a cache, even with the same name in other directories
    d2 = t.dir()
    write(os.path.join(d2, 'ch.paramnames'), 'x\ny\n')
    write(os.path.join(d2, 'ch_1.txt'), chain_text(seed + 77))
    for f in ('ch.paramnames', 'ch_1.txt'):
        os.utime(os.path.join(d2, f), (1000000000, 1000000000))
    s = loadMCSamples(os.path.join(d2, 'ch'), settings={'ignore_rows': 0})
    equal(s.numrows, len(chain_text(seed + 77).split('\n')) - 1, 'rows of another directory')
