"""The getdist command: which samples it analyses, what it writes where, PCA and plot scripts."""
import contextlib
import io
import logging
import os
import re
import numpy as np
from hypothesis import strategies as st
from vlib import Discard, case, close, equal, read, write
from gen import seeds
import getdist
from getdist import IniFile, MCSamples, loadMCSamples, plots
from getdist.command_line import getdist_command

RULE = ('chains written to files with generated burn in, excluded chains, names and settings; non-trivial: some rows or chains are left out, a mapping or normalization is used in PCA, or a plot script '
        'is made')
ASSUMPTIONS = ['marginalized statistics of given arrays are as verified in C05 to C16', 'plot scripts are executed with the drawing replaced by recording stand-ins']


@contextlib.contextmanager
def cwd(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def run(args, where):
    out = io.StringIO()
    with contextlib.redirect_stdout(out), cwd(where):
        res = getdist_command(args)
    return res


def numbers_equal(a, b, what):
    """Texts with the same words and (to printed precision) the same numbers."""
    a, b = a.split(), b.split()
    equal(len(a), len(b), 'number of words in %s' % what)
    for x, y in zip(a, b):
        if x != y:
            try:
                fx, fy = float(x), float(y)
            except ValueError:
                raise AssertionError('%s: got %s, expected %s' % (what, x, y))
            assert abs(fx - fy) <= 2e-5 * max(abs(fx), abs(fy)) + 1e-9 or abs(fx - fy) < 1.5 * 10. ** -len(x.partition('.')[2]) and 'E' not in x, '%s: got %s, expected %s' % (what, x, y)


NAMES = ['x', 'y', 'z', 'w']
LABELS = ['x_0', '\\alpha', 'z', '\\Omega_m']


@st.composite
def runs(draw):
    d = draw(st.integers(2, 4))
    c = dict(d=d, derived=draw(st.integers(0, 1)), fixed=draw(st.sampled_from([None, None, 0, 1])), seed=draw(seeds), rows=draw(st.lists(st.integers(60, 120), min_size=1, max_size=3)),
             weights=draw(st.sampled_from(['unit', 'int', 'float'])), sep=draw(st.sampled_from(['_', '_', '.'])), single=draw(st.sampled_from([False, False, True])),
             first=draw(st.sampled_from([1, 1, 3])))
    c['burn'] = draw(st.sampled_from([None, 0, 0.3, 0.5, 5, 20]))
    c['cli_burn'] = draw(st.sampled_from([None, None, None, 0, 0.25, 7]))
    c['props'] = draw(st.sampled_from([None, None, None, 'burn_removed = T\n', 'ignore_rows = 0.2\n', 'label = abc\n', 'ignore_rows = 11\n']))
    c['exclude'] = draw(st.sampled_from([[], [], [1], [2], [1, 3]]))
    c['range'] = draw(st.sampled_from([None, None, [2, None], [None, 2], [0, 0], [2, 2]]))
    c['cool'] = draw(st.sampled_from([None, None, 0.5, 1.5]))
    c['thin'] = draw(st.sampled_from([None, 2, 5]))
    c['thin_cool'] = draw(st.sampled_from([None, 0.5, 2.]))
    c['names'] = draw(st.sampled_from(['root', 'root', 'root', 'option', 'none']))
    c['bare'] = draw(st.sampled_from([False, False, False, True]))
    c['out'] = draw(st.sampled_from([None, 'o', 'o/deep/er', '.']))
    c['out_root'] = draw(st.sampled_from([None, None, 'other']))
    c['settings'] = draw(st.fixed_dictionaries({}, optional={'contours': st.sampled_from(['0.5 0.9', '0.68 0.95 0.99']), 'smooth_scale_1D': st.just('0.3'), 'limits[x]': st.just('-50 50'),
                                                             'all_limits': st.just('-60 N'), 'fine_bins': st.just('512'), 'converge_test_limit': st.just('0.9'), 'range_confidence': st.just('0.01'),
                                                             'marker[x]': st.just('0.5'), 'max_split_tests': st.just('3')}))
    c['no_tests'] = draw(st.sampled_from([False, False, True]))
    c['in_ini'] = draw(st.booleans())
    c['txt'] = draw(st.sampled_from([False, False, True]))
    return c


def chains_of(c, d):
    """Write the chain files -> (root, {index: rows of the file in order})"""
    r = np.random.RandomState(c['seed'])
    root = os.path.join(d, 'ch', 'run')
    os.makedirs(os.path.join(d, 'ch'))
    arrays = {}
    single = c['single']
    for i, n in enumerate(c['rows'][:1] if single else c['rows']):
        x = np.cumsum(r.normal(size=(n, c['d'])), axis=0) * 0.1 + r.normal(size=(n, c['d']))
        x[:, -1] += 0.5 * x[:, 0]
        if c['fixed'] is not None:
            x[:, c['fixed']] = 1.5
        w = {'unit': np.ones(n), 'int': r.randint(1, 6, size=n).astype(float), 'float': r.uniform(0.5, 3, size=n)}[c['weights']]
        like = 3 + np.sum(x ** 2, axis=1) / 2
        cols = np.column_stack([x] if c['bare'] else [w, like, x])
        f = root + '.txt' if single else '%s%s%d.txt' % (root, c['sep'], c['first'] + i)
        write(f, '\n'.join(' '.join('%.9e' % v for v in row) for row in cols) + '\n')
        arrays[0 if single else c['first'] + i] = np.loadtxt(f)
    # files of other roots
    write(os.path.join(d, 'ch', 'run_b_1.txt'), '1 2 3 4 5 6\n')
    write(os.path.join(d, 'ch', 'other_1.txt'), '1 2 3 4 5 6\n')
    return root, arrays


def header(c):
    names = NAMES[:c['d']]
    return ''.join('%s%s\t%s\n' % (n, '*' if c['derived'] and i == c['d'] - 1 else '', LABELS[i]) for i, n in enumerate(names))


def expected_burn(c):
    """Rows or fraction left out: chain properties override the settings file, an explicit option overrides both, nothing is removed twice."""
    if c['cli_burn'] is not None:
        return c['cli_burn']
    if c['props'] and 'burn_removed' in c['props']:
        return 0
    if c['props'] and 'ignore_rows' in c['props']:
        return float(c['props'].split('=')[1])
    return c['burn'] or 0


@case(runs(), quick=200, thorough=4000, shards=4)
def command(c, t):
    """All result files are those of the selected rows of the selected chains of that root."""
    if c['fixed'] is not None and (c['d'] < 3 or c['derived'] and c['fixed'] == c['d'] - 1):
        raise Discard()
    if c['cli_burn'] is not None and c['props'] and ('burn_removed' in c['props'] or 'ignore_rows' in c['props']):
        raise Discard()  # not documented which one should win
    d = t.dir()
    root, arrays = chains_of(c, d)
    names = header(c)
    lines = ['no_plots = T']
    if c['names'] == 'root':
        write(root + '.paramnames', names)
    elif c['names'] == 'option':
        lines.append('parameter_names = %s' % write(os.path.join(d, 'my.paramnames'), names))
    if c['props']:
        write(root + '.properties.ini', c['props'])
    if c['burn'] is not None:
        lines.append('ignore_rows = %s' % c['burn'])
    if c['exclude']:
        lines.append('exclude_chain = %s' % ' '.join(map(str, c['exclude'])))
    if c['range']:
        lines += ['%s = %d' % (k, v) for k, v in zip(('first_chain', 'chain_num'), c['range']) if v is not None]
    cool = None if c['bare'] else c['cool']
    if cool:
        lines.append('cool = %s' % cool)
    thin = c['thin'] if cool is None and (c['weights'] != 'float' or c['bare']) else None
    thin_cool = c['thin_cool'] if thin and not c['bare'] else None
    if thin:
        lines.append('thin_factor = %d' % thin)
        if thin_cool:
            lines.append('thin_cool = %s' % thin_cool)
    if c['bare']:
        lines.append('samples_are_chains = F')
    if c['out']:
        lines.append('out_dir = %s' % c['out'])
    if c['out_root']:
        lines.append('out_root = %s' % c['out_root'])
    if c['no_tests']:
        lines.append('no_tests = T')
    if c['in_ini']:
        lines.append('file_root = ch/run')
    sett = [k + ' = ' + v for k, v in c['settings'].items()]
    ini = write(os.path.join(d, 'set.ini'), '\n'.join(lines + sett) + '\n')
    args = [ini] + ([] if c['in_ini'] else ['ch/run.txt' if c['txt'] else 'ch/run']) + (['--ignore_rows', str(c['cli_burn'])] if c['cli_burn'] is not None else [])
    lo, hi = [None if v is None else v for v in c['range'] or [None, None]]
    use = [i for i in arrays if i not in c['exclude'] and (lo is None or i >= lo) and (hi is None or i <= hi)]
    if not use:
        try:
            run(args, d)
        except Exception:
            return
        raise AssertionError('results from no chains')
    burn = expected_burn(c)
    rows = {i: arrays[i][int(burn) if burn >= 1 else int(round(len(arrays[i]) * burn)):] for i in use}
    res = run(args, d)
    where = os.path.join(d, c['out'] or '.', c['out_root'] or 'run')
    made = sorted(f for f in os.listdir(os.path.dirname(where)) if f.startswith(os.path.basename(where) + '.') or f.startswith(os.path.basename(where) + '_'))
    ends = ['.corr', '.covmat', '.margestats'] + ([] if c['no_tests'] else ['.converge']) + ([] if c['bare'] else ['.likestats']) + (['_thin.txt'] if thin else [])
    equal(made, sorted(os.path.basename(where) + e for e in ends), 'result files')
    m = re.search('using ([0-9]+) rows, ([0-9]+) parameters', res)
    equal(int(m.group(1)), sum(len(r) for r in rows.values()), 'number of rows used')
    equal(int(m.group(2)), c['d'] - (c['fixed'] is not None), 'number of parameters')
    listed = [i for f in os.listdir(os.path.join(d, 'ch')) for i in use if f == ('run.txt' if c['single'] else 'run%s%d.txt' % (c['sep'], i))]
    orders = [sorted(use)] + ([listed] if listed != sorted(use) else [])
    for k, order in enumerate(orders):
        try:
            reference(c, rows, order, sett, d, where, cool, thin, thin_cool)
            break
        except AssertionError:
            if k == len(orders) - 1:
                raise
    t.nontrivial(burn > 0 or len(use) < len(arrays))


def reference(c, rows, order, sett, d, where, cool, thin, thin_cool):
    k = 0 if c['bare'] else 2
    kw = {} if c['bare'] else dict(weights=[rows[i][:, 0] for i in order], loglikes=[rows[i][:, 1] for i in order])
    names = [x.split()[0] for x in header(c).splitlines()]
    if c['names'] == 'none':
        names = ['param%d' % (i + 1) for i in range(c['d'])]
    ini = IniFile(write(os.path.join(d, 'ref.ini'), '\n'.join(sett) + '\n'))
    mc = MCSamples(samples=[rows[i][:, k:] for i in order], names=names, labels=['p_{%d}' % (i + 1) for i in range(c['d'])] if c['names'] == 'none' else LABELS[:c['d']], ini=ini, **kw)
    if cool:
        mc.cool(cool)
        mc.updateBaseStatistics()
    ref = os.path.join(d, 'ref')
    with contextlib.redirect_stdout(io.StringIO()):
        mc.writeCovMatrix(ref + '.covmat')
        mc.writeCorrelationMatrix(ref + '.corr')
        if not c['no_tests']:
            mc.getConvergeTests(mc.converge_test_limit, writeDataToFile=True, filename=ref + '.converge')
        mc.getMargeStats().saveAsText(ref + '.margestats')
        if not c['bare']:
            mc.getLikeStats().saveAsText(ref + '.likestats')
    for e in ('.covmat', '.corr', '.margestats') + (() if c['no_tests'] else ('.converge',)) + (() if c['bare'] else ('.likestats',)):
        numbers_equal(read(where + e), read(ref + e), e)
    # directly from the rows
    x = np.vstack([rows[i] for i in order])
    w = np.ones(len(x)) if c['bare'] else x[:, 0].copy()
    if cool:
        w *= np.exp((x[:, 1] - np.min(x[:, 1])) * (1 - cool))
    means = w.dot(x[:, k:]) / np.sum(w)
    got = {ln.split()[0].rstrip('*'): ln.split() for ln in read(where + '.margestats').splitlines()[3:] if ln.strip()}
    vary = [i for i in range(c['d']) if i != c['fixed']]
    equal(sorted(got), sorted(names[i].rstrip('*') for i in vary), 'parameters in statistics')
    for i in vary:
        close(float(got[names[i].rstrip('*')][1]), means[i], rtol=1e-5, atol=1e-7, what='mean of %s' % names[i])
    if thin:
        out = np.loadtxt(where + '_thin.txt', ndmin=2)
        ix = mc.thin_indices(thin)
        equal(len(out), len(ix), 'thinned rows')
        cols = [k + i for i in vary]
        close(out[:, 2:], x[ix][:, cols], rtol=1e-6, atol=1e-12, what='thinned samples')
        like = np.zeros(len(ix)) if c['bare'] else x[ix, 1]
        close(out[:, 1], like * (thin_cool or 1), rtol=1e-6, what='likelihoods of thinned samples')
        if thin_cool:
            rel = np.exp((like - like[0]) * (1 - thin_cool))
            close(out[:, 0] / out[0, 0], rel, rtol=1e-5, what='weights of cooled thinned samples')
        else:
            equal(out[:, 0].tolist(), [1.] * len(ix), 'weights of thinned samples')


MODES = st.sampled_from(['N', 'N', 'L', 'M'])


@case(st.tuples(st.integers(2, 4), seeds, st.lists(MODES, min_size=4, max_size=4), st.none() | st.integers(0, 4), st.sampled_from([None, None, 0, 1, 2]), st.booleans(), st.integers(0, 1),
                st.booleans(), st.none() | st.integers(1, 3), st.permutations(range(4))), quick=300, thorough=6000)
def pca(c, t):
    """Principal components are those of the weighted correlations of the mapped parameters, as printed."""
    n, seed, modes, norm, missing, auto, ncond, as_file, best, perm = c
    r = np.random.RandomState(seed)
    rows = 150
    A = r.normal(size=(5, 5)) + np.diag([1, 2, 3, 4, 5.])
    base = r.normal(size=(rows, 5)).dot(A.T) * 0.05
    w = r.randint(1, 5, size=rows).astype(float)
    order = perm[:n]
    modes = {i: modes[i] for i in range(4)}
    x = base.copy()
    for i in range(5):
        x[:, i] += {'N': 0.01 * i, 'L': 3 + i, 'M': -3 - i}[modes.get(i, 'N')]
        if modes.get(i) in ('L', 'M') and np.min(np.abs(x[:, i])) < 0.5:
            raise Discard()
    names = ['p%d' % i for i in range(5)]
    mc = MCSamples(samples=x, weights=w, names=names, labels=['L_%d' % i for i in range(5)], settings={'ignore_rows': 0})
    params = [names[i] for i in order]
    pmap = [modes[i] for i in order]
    use_map = ''.join(pmap)
    if auto:
        if 'N' in [modes[i] for i in order if np.min(x[:, i]) > 0] or any(np.min(x[:, i]) <= 0 < np.max(x[:, i]) and abs(np.min(x[:, i])) < 0.1 * np.ptp(x[:, i]) for i in order):
            raise Discard()
        use_map = None
        pmap = ['L' if modes[i] == 'L' else 'N' for i in order]
    given, gmap = list(params), use_map
    if missing is not None and missing <= len(params):
        given.insert(missing, 'nothere')
        if gmap is not None:
            gmap = gmap[:missing] + 'N' + gmap[missing:]
    normparam = names[norm] if norm is not None else None
    cond = ['p4'] * ncond
    out = os.path.join(t.dir(), 'x.PCA')
    text = mc.PCA(given, gmap, normparam, writeDataToFile=as_file, filename=out if as_file else None, conditional_params=cond)
    if as_file:
        equal(read(out), text, 'PCA file')
    # reference
    cols = [x[:, i] for i in order]
    cols = [np.log(v) if q == 'L' else np.log(-v) if q == 'M' else v for v, q in zip(cols, pmap)] + [x[:, 4]] * ncond
    W = np.sum(w)
    mean = np.array([w.dot(v) / W for v in cols])
    sd = np.array([np.sqrt(w.dot((v - m) ** 2) / W) for v, m in zip(cols, mean)])
    z = np.column_stack([(v - m) / s for v, m, s in zip(cols, mean, sd)])
    corr = (z * w[:, None]).T.dot(z) / W
    cc = corr
    if ncond:
        cc = corr[:n, :n] - np.outer(corr[:n, n], corr[n, :n]) / corr[n, n]
        z = z[:, :n]
    ev, vec = np.linalg.eigh(cc)
    if np.min(np.diff(ev)) < 0.02:
        raise Discard()
    parts = re.split(r'\nCorrelation matrix for reduced parameters\n|\ne-values of correlation matrix\n|\ne-vectors\n|\nPrinciple components\n|Correlations of principle components\n', text)
    equal(len(parts), 6, 'sections of the PCA text')
    labels = ['ln(L_%d)' % i if q == 'L' else 'ln(-L_%d)' % i if q == 'M' else 'L_%d' % i for i, q in zip(order, pmap)]
    equal([ln.split(':') for ln in parts[0].splitlines()[1:] if ln.strip()], [['%10s ' % (i + 1), s] for i, s in zip(order, labels)], 'list of parameters')
    nums = lambda s: [float(v) for v in re.findall(r'-?[0-9]+\.[0-9]+', s)]
    for i, ln in enumerate(parts[1].strip('\n').splitlines()):
        close(nums(ln.split(':')[1]), corr[i], atol=6e-5, rtol=0, what='correlations of %s' % params[i])
    close([nums(ln.split(':')[1])[0] for ln in parts[2].strip('\n').splitlines()], ev, atol=6e-5, rtol=0, what='eigenvalues')
    vecs = np.array([nums(ln.split(':')[1]) for ln in parts[3].strip('\n').splitlines()])
    for i in range(n):
        s = np.sign(vecs[:, i].dot(vec[:, i]))
        close(vecs[:, i] * s, vec[:, i], atol=1e-4, rtol=0, what='eigenvector %d' % i)
    doexp = any(q != 'N' for q in pmap)
    summaries = [s for s in re.split(r'(?=^PC[0-9]+ \(e-value)', parts[4], flags=re.M) if s.strip()]
    equal(len(summaries), n, 'number of components')
    comps = []
    for i, s in enumerate(summaries):
        lines = [ln for ln in s.splitlines() if ln.strip()]
        coef = np.array([float(re.match(r'\[(.*?)\]', ln).group(1)) for ln in lines[1:n + 1]])
        u = vec[:, i]
        big = [j for j in range(n) if abs(u[j]) > np.max(np.abs(u)) - 1e-7]
        if normparam in params:
            big = [params.index(normparam)]
            if abs(u[big[0]]) < 0.02:
                raise Discard()
        ok = [j for j in big if np.allclose(coef, u / u[j] * sd[j], rtol=2e-4, atol=2e-6)]
        assert ok, 'coefficients of component %d: got %s, expected %s' % (i + 1, coef, u / u[big[0]] * sd[big[0]])
        u = u / u[ok[0]] * sd[ok[0]]
        val = z.dot(u)
        if doexp:
            val = np.exp(val)
        m = w.dot(val) / W
        comps.append((val - m) / np.sqrt(w.dot((val - m) ** 2) / W))
        got = nums(lines[-1].split('=')[1])
        close(got, [m, np.sqrt(w.dot((val - m) ** 2) / W)], rtol=1e-4, atol=2e-6, what='mean and deviation of component %d' % (i + 1))
        for j in range(n):
            body = lines[1 + j].split(']', 1)[1].strip()
            if pmap[j] == 'N':
                g = re.fullmatch(r'(exp\()?\((L_[0-9])-(-?[0-9.]+)\)/(-?[0-9.e+inf]+)\)', body)
                assert g and g.group(2) == 'L_%d' % order[j] and bool(g.group(1)) == doexp, 'component term %s' % body
                close(float(g.group(3)), mean[j], rtol=1e-5, atol=1e-6, what='mean in component')
                if abs(u[j]) > 1e-3 * sd[j]:
                    close(float(g.group(4)), sd[j] / u[j], rtol=1e-3, atol=2e-6, what='scale in component')
            else:
                g = re.fullmatch(r'\((.*)/(-?[0-9.]+)\)\^\{(-?[0-9.]+)\}', body)
                assert g and g.group(1) == 'L_%d' % order[j], 'component term %s' % body
                close(float(g.group(2)), np.exp(mean[j]) * (-1 if pmap[j] == 'M' else 1), rtol=1e-5, atol=1e-6, what='pivot in component')
                close(float(g.group(3)), u[j] / sd[j], rtol=1e-4, atol=2e-6, what='exponent in component')
    lines = parts[5].strip('\n').splitlines()[1:]
    for j in range(n):
        close(nums(lines[j][4:]), [w.dot(comps[i] * comps[j]) / W for i in range(n)], atol=6e-4, rtol=0, what='correlations of components')
    for j in range(5):
        zz = (x[:, j] - w.dot(x[:, j]) / W)
        zz = zz / np.sqrt(w.dot(zz ** 2) / W)
        close(nums(lines[n + j][4:].split('(')[0]), [w.dot(comps[i] * zz) / W for i in range(n)], atol=6e-4, rtol=0, what='correlations of parameters with components')
        assert lines[n + j].endswith('(L_%d)' % j), 'label in PCA text'
    if best:
        short = mc.PCA(given, gmap, normparam, conditional_params=cond, n_best_only=best)
        equal([short] if best == 1 else short, summaries[:best], 'best components')
    t.nontrivial(doexp or normparam is not None or ncond > 0)


@st.composite
def scripts_(draw):
    pick = lambda lo, hi: draw(st.lists(st.sampled_from(NAMES[:3] + ['nothere', 'o*', '?mega']), min_size=lo, max_size=hi, unique=True))
    return dict(plot=draw(st.sampled_from([None, '0'])) if draw(st.booleans()) else pick(1, 3), param2d=draw(st.sampled_from([None, None, 'x', 'om', 'corr'])),
                pairs=draw(st.lists(st.permutations(NAMES[:3] + ['omega', 'nothere']).map(lambda x: list(x[:2])), max_size=3)), tri=draw(st.sampled_from([None, '', 'x y', 'o* x', 'x'])),
                sets=draw(st.lists(st.permutations(NAMES[:3] + ['omega', 'nothere']).map(lambda x: list(x[:3])), max_size=2)), out_root=draw(st.sampled_from([None, 'other'])),
                where=draw(st.sampled_from(['ch/run', 'run', 'abs'])), out=draw(st.sampled_from([None, 'o'])), ext=draw(st.sampled_from([None, 'png'])), marker=draw(st.booleans()),
                make=draw(st.booleans()), seed=draw(seeds))


@case(scripts_(), quick=100, thorough=2000, shards=4)
def scripts(c, t):
    """The plot scripts plot the requested parameters of the chain that was analysed and write to the output directory."""
    d = t.dir()
    r = np.random.RandomState(c['seed'])
    root = os.path.join(d, 'run' if c['where'] == 'run' else 'ch/run')
    os.makedirs(os.path.dirname(root), exist_ok=True)
    x = r.normal(size=(60, 4))
    x[:, 1] += x[:, 0] * r.uniform(-2, 2)
    np.savetxt(root + '_1.txt', np.column_stack([np.ones(60), np.sum(x ** 2, axis=1), x]))
    allp = ['x', 'y', 'z', 'omega']
    write(root + '.paramnames', 'x x\ny y\nz z\nomega* o\n')
    match = {'o*': ['omega'], '?mega': ['omega']}
    expand = lambda names: [q for n in names for q in (match.get(n) or ([n] if n in allp else []))]
    lines = ['ignore_rows = 0.1', 'no_tests = T']
    if c['plot']:
        lines.append('plot_params = ' + (c['plot'] if isinstance(c['plot'], str) else ' '.join(c['plot'])))
    if c['param2d']:
        lines.append('plot_2D_param = ' + ('omega' if c['param2d'] == 'om' else c['param2d']))
    if c['pairs']:
        lines += ['plot_2D_num = %d' % len(c['pairs'])] + ['plot%d = %s' % (i + 1, ' '.join(p)) for i, p in enumerate(c['pairs'])]
    if c['tri'] is not None:
        lines += ['triangle_plot = T', 'triangle_params = ' + c['tri']]
    if c['sets']:
        lines += ['num_3D_plots = %d' % len(c['sets'])] + ['3D_plot%d = %s' % (i + 1, ' '.join(p)) for i, p in enumerate(c['sets'])]
    if c['out_root']:
        lines.append('out_root = other')
    if c['out']:
        lines.append('out_dir = o')
    if c['ext']:
        lines.append('plot_output = png')
    if c['marker']:
        lines.append('marker[y] = 0.25')
    ini = write(os.path.join(d, 's.ini'), '\n'.join(lines) + '\n')
    ran = []
    from getdist import command_line
    old = command_line.runScript
    command_line.runScript = ran.append
    try:
        run([ini, root if c['where'] == 'abs' else c['where']] + ['--make_plots'] * c['make'], d)
    finally:
        command_line.runScript = old
    base = os.path.join(c['out'] or './', c['out_root'] or 'run')
    expect = {}
    if isinstance(c['plot'], list):
        pars = expand(c['plot'])
    else:
        pars = []
    expect[''] = ['1d', pars or allp, {'y': 0.25} if c['marker'] else None]
    pairs = None
    if c['param2d'] == 'corr':
        pairs = 'corr'
    elif c['param2d']:
        p = 'omega' if c['param2d'] == 'om' else c['param2d']
        pairs = sorted([q, p] for q in allp if q != p)
    elif c['pairs']:
        pairs = sorted(p for p in c['pairs'] if 'nothere' not in p)
        pairs = [p for i, p in enumerate(pairs) if p not in pairs[:i]]
    if pairs:
        expect['_2D'] = ['2d', pairs]
    if c['tri'] is not None:
        tp = expand(c['tri'].split()) if c['tri'] else allp
        if len(tp) > 1:
            expect['_tri'] = ['tri', tp]
    if c['sets']:
        sets = [s for s in c['sets'] if 'nothere' not in s]
        if sets:
            expect['_3D'] = ['3d', sets]
    made = sorted(f for f in os.listdir(os.path.join(d, c['out'] or '.')) if f.endswith('.py'))
    equal(made, sorted(os.path.basename(base) + k + '.py' for k in expect), 'plot scripts')
    equal(sorted(os.path.basename(f) for f in ran), made if c['make'] else [], 'scripts run')
    for k, want in expect.items():
        calls, exported = [], []
        saved = {}

        def record(kind):
            def f(self, roots, *args, **kwargs):
                mc = [self.samples_for_root(q) for q in ([roots] if isinstance(roots, str) else roots)]
                calls.append((kind, mc, args, kwargs))
            return f

        G = plots.GetDistPlotter
        for kind, name in (('1d', 'plots_1d'), ('2d', 'plots_2d'), ('tri', 'triangle_plot'), ('3d', 'plots_3d')):
            saved[name] = getattr(G, name)
            setattr(G, name, record(kind))
        saved['export'] = G.export
        G.export = lambda self, f=None, *a, **kw: exported.append(f)
        try:
            with cwd(d), contextlib.redirect_stdout(io.StringIO()):
                exec(compile(read(os.path.join(d, base + k + '.py')), base + k, 'exec'), {'__name__': '__main__'})
        finally:
            for name, f in saved.items():
                setattr(G, name, f)
        ext = c['ext'] or getdist.default_plot_output
        equal([os.path.normpath(f) for f in exported], [os.path.normpath(base + k + '.' + ext)], 'plot file')
        equal(len(calls), 1, 'plots in script')
        kind, mc, args, kwargs = calls[0]
        equal(kind, want[0], 'kind of plot')
        equal(len(mc), 1, 'chains in plot')
        full = x[mc[0].numrows - 60:] if mc[0].numrows == 60 else x[-mc[0].numrows:]
        close(mc[0].samples, full, rtol=1e-8, what='samples plotted')
        if kind == '1d':
            equal(list(args[0]) if args and args[0] else kwargs.get('params') or allp, want[1], 'parameters in 1D plots')
            equal(kwargs.get('markers'), want[2], 'markers')
        elif kind == '2d':
            got = kwargs.get('param_pairs', args[2] if len(args) > 2 else None)
            if want[1] == 'corr':
                corr = np.abs(mc[0].getCorrelationMatrix())[:3, :3]
                strength = lambda p: -corr[allp.index(p[0]), allp.index(p[1])]
                best = sorted([[allp[i], allp[j]] for i in range(3) for j in range(i + 1, 3)], key=strength)
                equal(sorted(got), sorted(best), 'most correlated pairs')
            else:
                equal(sorted(got), want[1], 'pairs in 2D plots')
        elif kind == 'tri':
            equal(list(args[0]), want[1], 'parameters in triangle plot')
        else:
            equal([list(s) for s in args[0]], want[1], 'parameters in scatter plots')
    t.nontrivial(len(expect) > 1)


YAML = 'likelihood:\n  one:\nparams:\n  x:\n    prior: {min: -20, max: 20}\n    latex: x_0\n  y:\n    prior: {min: -30, max: 30}\n    latex: y_0\nsampler:\n  mcmc:\n'


@case(st.tuples(st.lists(st.tuples(st.sampled_from(['ab', 'abc', 'b_x', 'a.paramnames_b', 'xupdated.yaml_b', 'ba']), st.sampled_from(['cosmomc', 'cobaya'])), min_size=1, max_size=3,
                         unique_by=lambda x: x[0]), st.sampled_from(['*', 'a*', '?b*', 'z*']), st.booleans(), seeds), quick=60, thorough=1000, shards=2)
def patterns(c, t):
    """A pattern as chain name analyses every matching chain as if it was given alone."""
    roots, pat, ini, seed = c
    if any(a != b and a.startswith(b) for a, _ in roots for b, _ in roots):
        raise Discard()
    import fnmatch
    d = t.dir()
    r = np.random.RandomState(seed)
    outs = {}
    os.makedirs(os.path.join(d, 'ch'))
    opts = []
    if ini:
        opts = [write(os.path.join(d, 's.ini'), 'no_plots = T\nignore_rows = 0.2\n')]
    for name, kind in roots:
        rows = np.column_stack([np.ones(50), r.gamma(2, size=50), r.normal(size=(50, 2 if kind == 'cosmomc' else 6))])
        root = os.path.join(d, 'ch', name)
        text = '\n'.join(' '.join('%.8e' % v for v in row) for row in rows) + '\n'
        if kind == 'cosmomc':
            write(root + '_1.txt', text)
            write(root + '.paramnames', 'x x_0\ny y_0\n')
        else:
            write(root + '.1.txt', '# weight minuslogpost x y minuslogprior minuslogprior__0 chi2 chi2__one\n' + text)
            write(root + '.updated.yaml', YAML)
        one = os.path.join(d, 'one', name)
        os.makedirs(one)
        run(opts + [root], one)
        outs[name] = {f: read(os.path.join(one, f)) for f in os.listdir(one)}
    work = os.path.join(d, 'all')
    os.makedirs(work)
    run(opts + [os.path.join(d, 'ch', pat)], work)
    expect = {}
    for name, kind in roots:
        if fnmatch.fnmatchcase(name, pat):
            expect.update(outs[name])
    got = {f: read(os.path.join(work, f)) for f in os.listdir(work)}
    equal(sorted(got), sorted(expect), 'files for pattern')
    for f in got:
        equal(got[f], expect[f], 'contents of ' + f)
    t.nontrivial(0 < len(expect))


@case(st.tuples(seeds, st.booleans()), quick=4, thorough=20)
def template(c, t):
    """The settings file written for users has the documented defaults and runs as it is."""
    seed, finish = c
    d = t.dir()
    r = np.random.RandomState(seed)
    run(['--make_param_file', 'my.ini'], d)
    ini, default = IniFile(os.path.join(d, 'my.ini')), IniFile(getdist.default_getdist_settings)
    for k, v in default.params.items():
        equal(ini.params[k], v, 'default of ' + k)
    x = r.normal(size=(80, 3))
    os.makedirs(os.path.join(d, 'chains'))
    for i in (1, 2):
        np.savetxt(os.path.join(d, 'chains', 'test_%d.txt' % i), np.column_stack([np.ones(80), np.sum(x ** 2, axis=1), x + r.normal(size=x.shape)]))
    write(os.path.join(d, 'chains', 'test.paramnames'), 'a a\nb b\nc c\n')
    if finish:
        write(os.path.join(d, 'my.ini'), read(os.path.join(d, 'my.ini')) + '\nfinish_run_command = echo %ROOTNAME% > done.txt\n')
    run(['my.ini'], d)
    mc = loadMCSamples(os.path.join(d, 'chains', 'test'), no_cache=True)
    f = os.path.join(d, 'ref.margestats')
    mc.getMargeStats().saveAsText(f)
    numbers_equal(read(os.path.join(d, 'test.margestats')), read(f), 'statistics with the template')
    if finish:
        equal(read(os.path.join(d, 'done.txt')).strip(), 'test', 'final command')
    t.nontrivial()
