"""Finding chains by name: directories, grids of directories, plotter sample lookup and its caches."""
import contextlib
import io
import itertools
import os
import numpy as np
from hypothesis import strategies as st
from vlib import Discard, case, close, equal, raises, read, write
import gridspec
import paramgrid
from paramgrid import gridconfig
from getdist import MCSamples, chains
from getdist.chain_grid import ChainDirGrid, get_chain_root_files
from getdist.plots import MCSampleAnalysis, RootInfo

RULE = ('directory trees up to four levels deep holding chains of the same or permuted names in any file layout; non-trivial: two chains whose names collide, '
        'or a lookup history with a change of files, settings or locations')
ASSUMPTIONS = ['chains are told apart by their (constant-offset) parameter values', 'no symbolic links']

DIRS = ['a', 'b', 'x', 'base_TT']
ROOTS = ['run', 'base_TT_lowl', 'base_lowl_TT', 'base_TT_lowl_post_BAO', 'run2', 'base_BAO_TT_lowl']
REPO = os.path.normpath(os.path.join(os.path.dirname(paramgrid.__file__), '..', '..'))
STYLES = ['cosmomc', 'single', 'cobaya', 'both']


def norm(root):
    return tuple(sorted(x for x in root.replace('_post', '').split('_')))


@st.composite
def trees(draw, depth=1, max_chains=7):
    items = draw(st.lists(st.tuples(st.lists(st.sampled_from(DIRS), min_size=depth, max_size=4), st.sampled_from(ROOTS), st.sampled_from(STYLES)),
                          min_size=1, max_size=max_chains, unique_by=lambda x: (tuple(x[0]), x[1])))
    return dict(chains=[[list(d), r, s] for d, r, s in items],
                extra=draw(st.lists(st.tuples(st.lists(st.sampled_from(DIRS), min_size=1, max_size=3), st.sampled_from(['names_only', 'txt', 'dir'])), max_size=3)))


def write_chain(path, root, style, value, n=30):
    os.makedirs(path, exist_ok=True)
    r = os.path.join(path, root)
    x = np.column_stack([np.ones(n), np.linspace(1, 5, n), value + np.linspace(-0.1, 0.1, n), np.linspace(0, 1, n) ** 2])
    more = ['minuslogprior', 'minuslogprior__0', 'chi2']
    if style in ('cosmomc', 'single', 'both'):
        write(r + '.paramnames', 'p  p_1\nq  q_1\n' + (''.join('%s* %s\n' % (k, k) for k in more) if style == 'both' else ''))
    if style in ('cobaya', 'both'):
        y = 'params:\n  p:\n    prior: [-1e6, 1e6]\n    latex: p_1\n  q:\n    prior: [-1e6, 1e6]\n    latex: q_1\nlikelihood: {}\n'
        write(r + '.updated.yaml', y)
        x = np.column_stack([x] + [np.linspace(2, 3, n) ** k for k in (1, 2, 3)])
    if style == 'single':
        np.savetxt(r + '.txt', x)
    elif style in ('cosmomc', 'both'):
        np.savetxt(r + '_1.txt', x[:15])
        np.savetxt(r + '_2.txt', x[15:])
    else:
        with open(r + '.1.txt', 'w') as f:
            f.write('# weight minuslogpost p q %s\n' % ' '.join(more) + '')
            np.savetxt(f, x[:15])
        with open(r + '.2.txt', 'w') as f:
            f.write('# weight minuslogpost p q %s\n' % ' '.join(more) + '')
            np.savetxt(f, x[15:])
    return r


def build(base, c, offset=0.):
    """-> {full root path: value}"""
    out = {}
    for k, (dirs, root, style) in enumerate(c['chains']):
        out[write_chain(os.path.join(base, *dirs), root, style, offset + 10. * (k + 1))] = offset + 10. * (k + 1)
    for dirs, kind in c['extra']:
        d = os.path.join(base, *dirs)
        os.makedirs(d, exist_ok=True)
        if kind == 'names_only':
            write(os.path.join(d, 'lonely.paramnames'), 'p p\n')
        elif kind == 'txt':
            write(os.path.join(d, 'notes.txt'), 'hello\n')
    return out


@contextlib.contextmanager
def cwd(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


@case(st.tuples(trees(), st.booleans(), st.sampled_from(ROOTS + ['missing', 'base_TT'])), quick=400, shards=2)
def chain_directories(c, t):
    tree, relative, probe = c
    top = os.path.realpath(t.dir())
    base = os.path.join(top, 'grid')
    os.makedirs(base)
    have = build(base, tree)
    write(base + '/getdist.ini', 'smooth_scale_1D = 0.25\n')
    names = [r for d, r, s in tree['chains']]
    t.nontrivial(len(set(norm(r) for r in names)) < len(names))
    with cwd(top):
        g = ChainDirGrid('grid' if relative else base)
        items = list(g.roots.items())
        equal(sorted(os.path.abspath(i.chainRoot) for n, i in items), sorted(have), 'chains of the grid')
        for n, i in items:
            equal(i.name, n, 'item name')
            path = os.path.abspath(i.chainRoot)
            assert path.replace(os.sep, '/').endswith('/' + n), 'name %s of chain %s' % (n, path)
            equal(os.path.abspath(os.path.join(i.chainPath, n)), path, 'path and name of chain')
            if names.count(os.path.basename(path)) == 1:
                equal(n, os.path.basename(path), 'name of chain with unique root')
            equal(i.paramtag, os.path.relpath(path, base).split(os.sep)[0], 'top directory')
            assert g.resolve_root(n) is i and g.resolveRoot(n) is i, 'lookup of ' + n
        equal(dict(g.getdist_options).get('smooth_scale_1D'), '0.25', 'settings of the grid')
        equal(sorted(g.base_dir_names), sorted(set(d[0] for d, r, s in tree['chains'])), 'top directories with chains')
        for d in DIRS:
            equal(sorted(g.roots_for_dir(d)), sorted(n for n, i in items if os.path.relpath(os.path.abspath(i.chainRoot), base).split(os.sep)[0] == d), 'chains of ' + d)
        # lookup of names in another order of their parts
        same = [p for p in have if norm(os.path.basename(p)) == norm(probe)]
        if probe in g.roots:
            equal(os.path.basename(g.resolve_root(probe).chainRoot), probe, 'exact match')
        elif len(same) == 1:
            equal(os.path.abspath(g.resolve_root(probe).chainRoot), same[0], 'match of %s in another order' % probe)
        elif same:
            assert raises(g.resolve_root, probe), 'ambiguous %s resolved' % probe
        else:
            equal(g.resolve_root(probe), None, 'missing chain')
        # directories one at a time
        for d in sorted(set(os.path.dirname(p) for p in have)):
            rel = os.path.relpath(d, top) if relative else d
            got = get_chain_root_files(rel)
            equal([os.path.abspath(x) for x in got], sorted(p for p in have if os.path.dirname(p) == d), 'chains of directory')
            for p in have:
                if os.path.dirname(p) == d:
                    r = chains.findChainFileRoot(rel, os.path.basename(p), search_subdirectories=False)
                    equal(os.path.abspath(r), p, 'found')
        for d, r in itertools.product(['.'], set(names)):
            f = chains.findChainFileRoot('grid' if relative else base, r)
            assert f is not None and os.path.abspath(f) in [p for p in have if os.path.basename(p) == r], 'search of %s found %s' % (r, f)
        equal(chains.findChainFileRoot(base, 'nothing'), None, 'missing chain')
        equal(chains.findChainFileRoot(base, 'no_such_dir/nothing'), None, 'missing chain in missing directory')


def centre(s):
    return float(s.mean('p'))


@case(st.tuples(trees(depth=0, max_chains=4), trees(depth=0, max_chains=4), st.booleans(), st.booleans(),
                st.lists(st.tuples(st.sampled_from(['get', 'density', 'density', 'grid', 'single', 'change', 'change', 'nocache', 'nocache', 'remove', 'add', 'addinfo', 'reset', 'params', 'priority']),
                                   st.integers(0, 9), st.integers(0, 1), st.sampled_from([0.2, 0.35, 0.5])), min_size=2, max_size=12)), quick=240, shards=6)
def lookup_histories(c, t):
    """samples and densities by name over a history of loads, file changes, removals and resets"""
    t1, t2, ini1, ini2, ops = c
    top = os.path.realpath(t.dir())
    dirs = [os.path.join(top, 'one'), os.path.join(top, 'two')]
    vals = {}
    for k, (d, tr) in enumerate(zip(dirs, (t1, t2))):
        os.makedirs(d)
        vals.update(build(d, tr, offset=1000. * k))
    style = {os.path.join(d, *(x[0] + [x[1]])): x[2] for d, tr in zip(dirs, (t1, t2)) for x in tr['chains']}
    inis = [0.11 if ini1 else None, 0.12 if ini2 else None]
    for d, v in zip(dirs, inis):
        if v:
            write(d + '/getdist.ini', 'smooth_scale_1D = %s\n' % v)
    an = MCSampleAnalysis(dirs, settings={'ignore_rows': 0, 'smooth_scale_1D': 0.3})
    t.nontrivial(len(set(o[0] for o in ops)) > 2)
    general = 0.3
    priority = True
    loaded = {}  # name -> (file, value when loaded, smoothing)

    def find(name):
        """path the name stands for, searched in order; None if it cannot be told"""
        for k, d in enumerate(dirs):
            inside = [p for p in vals if p.startswith(d + os.sep)]
            flat = any(os.path.dirname(p) == d for p in inside)
            cand = [p for p in inside if os.path.basename(p) == name]
            if flat:
                if os.path.join(d, name) in cand:
                    return os.path.join(d, name), k
                if len(cand) > 1:
                    return None, k
                if cand:
                    return cand[0], k
            else:
                if len(cand) == 1:
                    return cand[0], k
                if cand or any(norm(os.path.basename(p)) == norm(name) for p in inside):
                    return None, k
        return False, None

    def expected(name):
        p, k = find(name)
        if not p:
            return p
        return p, vals[p], (inis[k] or general) if priority else general

    def check(name, s):
        p, v, sm = loaded[name]
        close(centre(s), v, rtol=0, atol=1e-6, what='samples of %s (%s)' % (name, p))
        equal(s.paramNames.list()[:2], ['p', 'q'], 'parameters')
        if sm is not None:
            close(float(s.smooth_scale_1D), sm, what='smoothing setting of ' + name)

    for op, k, j, sm in ops:
        # mostly the first chains, sometimes any name
        name = (sorted(os.path.basename(p) for p in vals)[k % 2::2] or ROOTS)[0] if k < 8 else ROOTS[(k + j) % len(ROOTS)]
        if op in ('get', 'density', 'grid', 'single', 'nocache', 'params'):
            if name not in loaded or op == 'nocache':
                e = expected(name)
                if e is None:
                    continue
                if e is False:
                    if op == 'nocache' or name not in loaded:
                        assert raises(an.samples_for_root, name, cache=op != 'nocache'), 'missing chain %s found' % name
                    continue
                loaded[name] = e
            if op == 'get':
                check(name, an.samples_for_root(name))
            elif op == 'nocache':
                check(name, an.samples_for_root(name, cache=False))
            elif op == 'density':
                d = an.get_density(name, 'p')
                assert d.x[0] <= loaded[name][1] <= d.x[-1], 'density of %s around %s covers %s-%s' % (name, loaded[name][1], d.x[0], d.x[-1])
            elif op == 'grid':
                pars = an.params_for_root(name)
                d = an.get_density_grid(name, pars.parWithName('p'), pars.parWithName('q'))
                assert d.x[0] <= loaded[name][1] <= d.x[-1], '2D density of %s' % name
                assert d.y[0] <= 0.3 <= d.y[-1], '2D density of %s' % name
                d2 = an.get_density_grid(name, pars.parWithName('q'), pars.parWithName('p'))
                assert d2.y[0] <= loaded[name][1] <= d2.y[-1], '2D density of %s' % name
            elif op == 'single':
                x = an.load_single_samples(name)
                assert abs(np.mean(x[:, 0]) - loaded[name][1]) < 0.2, 'single samples of %s: %s' % (name, np.mean(x[:, 0]))
            else:
                equal(an.params_for_root(name).list()[:2], ['p', 'q'], 'parameters')
                close(an.bounds_for_root(name) is an.samples_for_root(name), True, what='bounds')
            check(name, an.samples_for_root(name))
        elif op == 'change':
            p, _ = find(name)
            if p:
                vals[p] += 100.
                write_chain(os.path.dirname(p), os.path.basename(p), style[p], vals[p])
                for f in os.listdir(os.path.dirname(p)):
                    if f.endswith('.py_mcsamples'):
                        os.remove(os.path.join(os.path.dirname(p), f))
        elif op == 'remove':
            an.remove_root(name)
            loaded.pop(name, None)
        elif op in ('add', 'addinfo'):
            cand = sorted(p for p in vals if os.path.basename(p) == name and p.startswith(dirs[j] + os.sep))
            if not cand:
                continue
            p = cand[-1]
            if name in loaded and loaded[name][0] == p:
                continue
            s = an.add_root(p) if op == 'add' else an.add_root(RootInfo(name, os.path.dirname(p)))
            loaded[name] = p, vals[p], None
            check(name, s)
            check(name, an.samples_for_root(name))
        elif op in ('reset', 'priority'):
            an.reset({'ignore_rows': 0, 'smooth_scale_1D': sm}, chain_settings_have_priority=op == 'reset')
            general = sm
            priority = op == 'reset'
            loaded.clear()
    s = an.samples_for_root(MCSamples(samples=np.random.RandomState(1).normal(size=(30, 1)), names=['z']))
    equal(s.paramNames.list(), ['z'], 'samples given directly')
    assert raises(an.samples_for_root, 3), 'number as root'


@case(st.tuples(gridspec.specs(small=True), st.lists(st.tuples(st.sampled_from([None, '', 'burn_removed = T\n', 'burn_removed = F\n', 'burn_removed = T\nignore_rows = 0.4\n']), st.integers(1, 3), st.booleans()), min_size=4, max_size=4),
                st.sampled_from([0, 0.3, 0.25, 5]), st.booleans(), st.booleans(), st.booleans(), st.lists(st.integers(0, 10 ** 6), min_size=6, max_size=6)), quick=160, thorough=3000, shards=4)
def grid_samples(c, t):
    """Samples of a grid job come from its own files with the burn in removed once and the settings of the grid and job."""
    spec, chains_of, ignore, priority, marked, again, picks = c
    rng = np.random.RandomState(picks[0])
    p = gridspec.prepare(spec, os.path.realpath(t.dir()), REPO)
    with gridspec.imports():
        import sys
        sys.path.insert(0, p['sett'])
        with contextlib.redirect_stdout(io.StringIO()):
            batch = gridconfig.makeGrid(p['grid'], p['module'])
        items = list(batch.items(wantImportance=True))
        if not items:
            raise Discard()
        models = {m.name: m for m in p['full'] + p['cand']}
        data = {}
        for k, x in enumerate(items):
            props, nch, _ = chains_of[k % 4]
            os.makedirs(x.chainPath, exist_ok=True)
            write(x.chainRoot + '.paramnames', 'p p_1\nq q_1\n')
            n = 12 + k % 5
            rows = [np.column_stack([1 + np.arange(n) % 3, np.ones(n), 100. * k + np.arange(n) + 20 * j, rng.normal(size=n)]) for j in range(nch)]
            for j, v in enumerate(rows):
                np.savetxt('%s_%d.txt' % (x.chainRoot, j + 1), v)
            if props is not None:
                write(x.chainRoot + '.properties.ini', props)
            data[x.name] = rows, 'burn_removed = T' in (props or '')
        base = {'ignore_rows': ignore, 'smooth_scale_1D': 0.3}
        if marked:
            base.update(mark_all='mine', mark_grid='mine', mark_data='mine')
        for turn in range(2 if again else 1):
            an = MCSampleAnalysis(p['grid'])
            an.reset(base, chain_settings_have_priority=priority)
            for x, k in [(items[i % len(items)], i) for i in picks]:
                rows, removed = data[x.name]
                m = models[x.name]
                name = x.name
                if k % 3 == 1:
                    name = m.normed
                with contextlib.redirect_stdout(io.StringIO()):
                    s = an.samples_for_root(name)
                equal(s.jobItem.name, x.name, 'job of %s' % name)
                exp = dict(spec['getdist'] or {})
                exp.update(m.dist())
                own = dict(base, **exp) if priority else dict(exp, **base)
                if m.filt and m.parent.parent is not None:  # may also have the settings of the importance run
                    for key in ('mark_all', 'mark_imp'):
                        if priority or key not in base:
                            own.pop(key, None)
                for key, v in own.items():
                    equal(str(s.ini.params.get(key)), str(v), 'setting %s of %s' % (key, x.name))
                for key in ('mark_data', 'mark_filter', 'mark_imp', 'mark_grid', 'mark_all'):
                    if key not in own and not (m.filt and m.parent.parent is not None):
                        assert key not in s.ini.params, 'setting %s=%r of %s' % (key, s.ini.params[key], x.name)
                cut = float(own['ignore_rows'])
                if cut < 1:
                    ignored = 0 if removed or m.parent else cut
                    want = [v[int(round(len(v) * ignored)):] for v in rows]
                    t.label('burn in removed' if ignored else 'no burn in')
                elif removed:
                    want = rows
                elif m.parent:
                    continue
                else:
                    want = [v[int(cut):] for v in rows]
                got = np.concatenate([ch.samples[:, 0] for ch in s.chains]) if s.chains is not None else s.samples[:, 0]
                equal(sorted(got), sorted(np.concatenate(want)[:, 2]), 'rows of %s (burn in %s, removed before %s)' % (x.name, cut, removed))
                t.nontrivial(len(items) > 1)
