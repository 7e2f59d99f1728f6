"""Scripts that list, clean, copy, rename, extract, analyse and tabulate the chains of a grid."""
import contextlib
import fnmatch
import functools
import io
import os
import re
import runpy
import sys
import time
import zipfile
import numpy as np
from hypothesis import strategies as st
from vlib import Discard, case, equal, raises, read, write
from gridspec import imports, prepare, specs
import paramgrid
from paramgrid import batchjob, gridconfig
from getdist import IniFile, MCSamples, types
from getdist.paramnames import ParamNames

RULE = ('grids whose jobs have generated sets of chain, information and result files; non-trivial: the script acts on some but not all of the files or jobs')
ASSUMPTIONS = ['pdflatex is not installed and not needed', 'all files are below a scratch directory']

PY = os.path.normpath(os.path.join(os.path.dirname(paramgrid.__file__), '..')) + os.sep
REPO = os.path.normpath(os.path.join(PY, '..'))

CHAIN_EXT = ['.paramnames', '.ranges', '.minimum', '.inputparams', '.log', '.chk', '_1.chk', '.properties.ini', '.likelihoods', '_3.txt', '.py_mcsamples']
DIST_EXT = ['.margestats', '.likestats', '.covmat', '.converge', '.corr', '_tri.pdf', '_2D.pdf', '.pdf', '.py']


@contextlib.contextmanager
def cwd(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def run_script(name, args, where):
    out = io.StringIO()
    old, env = sys.argv, dict(os.environ)
    sys.argv = [PY + name] + list(args)
    os.environ['PATH'] = '/nonexistent'
    err = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    try:
        os.dup2(null, 2)
        with contextlib.redirect_stdout(out), cwd(where):
            try:
                runpy.run_path(PY + name, run_name='__main__')
            except SystemExit as e:
                assert not e.code, '%s %s: exit %s' % (name, args, e.code)
    finally:
        os.dup2(err, 2)
        os.close(err)
        os.close(null)
        sys.argv = old
        os.environ.clear()
        os.environ.update(env)
    return out.getvalue()


def quiet(f, *args, **kwargs):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args, **kwargs)


def tree(d):
    out = {}
    for r, _, files in os.walk(d):
        if '__pycache__' in r:
            continue
        for f in files:
            with open(os.path.join(r, f), 'rb') as h:
                out[os.path.relpath(os.path.join(r, f), d)] = h.read()
    return out


FILES = st.lists(st.tuples(st.integers(0, 2), st.lists(st.integers(0, len(CHAIN_EXT) - 1), max_size=6, unique=True), st.lists(st.integers(0, len(DIST_EXT) - 1), max_size=6, unique=True),
                           st.booleans()), min_size=5, max_size=5)


@functools.lru_cache(None)
def results(k):
    """Getdist output files of some samples."""
    rng = np.random.RandomState(k)
    samples = [rng.multivariate_normal([0.1 * k, 1 - k, 3], np.diag([1, 0.2, 2.]) * (1 + k), size=400) for _ in range(2)]
    mc = MCSamples(samples=samples, loglikes=[np.sum(s ** 2, axis=1) for s in samples], names=['omegabh2', 'mnu', 'H0*'], labels=['\\Omega_b h^2', 'm_\\nu', 'H_0'])
    import tempfile
    d = tempfile.mkdtemp()
    with contextlib.redirect_stdout(io.StringIO()):
        mc.getMargeStats().saveAsText(os.path.join(d, 'x.margestats'))
        mc.getLikeStats().saveAsText(os.path.join(d, 'x.likestats'))
        mc.getConvergeTests(0.95, writeDataToFile=True, filename=os.path.join(d, 'x.converge'))
    return {e: read(os.path.join(d, 'x' + e)) for e in ('.margestats', '.likestats', '.converge')}


def minimum(k):
    return ('-log(Like) =  %.4f\n chi-sq    =   %.4f\n\n    1   %.6E   omegabh2             \\Omega_b h^2\n    2   %.6E   mnu             m_\\nu\n \n \n    3   %.6E   H0             H_0\n'
            '\n-log(Like)     chi-sq   data\n     1.500      %.3f  CMB: plik\n' % (50 + k, 2 * (50 + k), 0.02 + k, 0.1 * k, 70 + k, 3 + k))


def populate(p, files, good=False, always=()):
    """Make the grid and its files -> batch, {name: item}"""
    sys.path.insert(0, p['sett'])
    batch = quiet(gridconfig.makeGrid, p['grid'], p['module'])
    items = {x.name: x for x in batch.items(wantImportance=True)}
    for i, x in enumerate(items.values()):
        nch, ce, de, hasdist = files[(i + len(x.name)) % len(files)]
        for k in range(nch):
            write('%s_%d.txt' % (x.chainRoot, k + 1), ''.join('1 %d %d\n' % (r, i) for r in range(3 + 4 * k)))
        for e in sorted(set(ce) | {CHAIN_EXT.index(e) for e in always}):
            text = 'chain file %s%s\n' % (x.name, CHAIN_EXT[e])
            if CHAIN_EXT[e] == '.paramnames':
                text = 'omegabh2\t\\Omega_b h^2\nmnu\tm_\\nu\t#comment\nH0*\tH_0\n'
            elif CHAIN_EXT[e] == '.minimum':
                text = minimum(i)
            elif CHAIN_EXT[e] == '.properties.ini':
                text = 'label = x %d\n' % i
            write(x.chainRoot + CHAIN_EXT[e], text)
        if hasdist or good:
            os.makedirs(x.distPath, exist_ok=True)
            for e in (range(len(DIST_EXT)) if good else de):
                text = 'dist file %s%s\n' % (x.name, DIST_EXT[e])
                if DIST_EXT[e] in ('.margestats', '.likestats', '.converge'):
                    text = results(i % 4)[DIST_EXT[e]]
                write(x.distRoot + DIST_EXT[e], text)
    return batch, items


@st.composite
def selection(draw):
    """-> (arguments, predicate name) of a simple selection of jobs"""
    return draw(st.sampled_from([[], [], ['--noimportance'], ['--importance'], ['--data', 'plik'], ['--skip_data', 'BAO'], ['--param', 'mnu', 'r'], ['--name', '*TT*']]))


def selected(x, sel):
    if not sel:
        return True
    if sel[0] == '--noimportance':
        return not x.isImportanceJob
    if sel[0] == '--importance':
        return x.isImportanceJob
    if sel[0] == '--data':
        return 'plik' in x.data_set.names
    if sel[0] == '--skip_data':
        return 'BAO' not in x.data_set.names
    if sel[0] == '--param':
        return bool({'mnu', 'r'} & set(x.param_set))
    return 'TT' in x.name


def owner(path, items):
    """The job a file in the grid belongs to: the one with the longest name it starts with, in that job's directory."""
    d, f = os.path.split(path)
    best = None
    for x in items.values():
        dirs = [x.relativePath.rstrip(os.sep), os.path.join(x.relativePath, 'dist')]
        if d in dirs and (f.startswith(x.name + '.') or f.startswith(x.name + '_')) and (best is None or len(x.name) > len(best.name)):
            best = x
    return best


def converged(x, limit, files, grid, missing):
    f = os.path.relpath(x.distRoot + '.converge', grid)
    if f not in files:
        return missing
    rows = files[f].decode().split('orthonormalized parameters\n')[1].split('\n\n')[0].strip().split('\n')
    return float(rows[-1].split()[1]) <= float(limit)


@case(st.tuples(specs(), FILES, selection(), st.sampled_from([['*'], ['txt'], ['chk', 'log'], ['*stats']]), st.booleans(), st.booleans(), st.sampled_from([None, '1', '2']),
                st.booleans(), st.sampled_from([None, None, None, '0.0007', '100'])), quick=400, thorough=3000, shards=3)
def clean(c, t):
    """Cleaning removes the requested files of the selected jobs, only if confirmed, and nothing else in the grid."""
    s, files, sel, exts, dist, empty, num, confirm, conv = c
    p = prepare(s, t.dir(), REPO)
    with imports():
        batch, items = populate(p, files)
        for i, x in enumerate(items.values()):
            if i % 2:
                write(x.chainRoot + '_4.txt', '')
            elif i < 4:
                write(x.chainRoot + '_4.txt', 'x' * (1500000 - 800000 * (i // 2)))
        write(os.path.join(p['grid'], 'notes.txt'), 'keep')
        before = tree(p['grid'])
        argv = [p['grid'], '--ext'] + exts + sel + ['--dist'] * dist + ['--empty'] * empty + ['--confirm'] * confirm + (['--chainnum', num] if num else []) + (['--converge', conv] if conv else [])
        out = run_script('cleanup.py', argv, t.dir())
    gone = {}
    for path, content in before.items():
        x = owner(path, items)
        if x is None or not selected(x, sel) or conv and converged(x, conv, before, p['grid'], missing=True):
            continue
        rest = os.path.basename(path)[len(x.name):]
        pats = ['_%s.%s' % (num, e) for e in exts] if num else ['.' + e for e in exts] + ['_*.' + e for e in exts]
        if any(fnmatch.fnmatchcase(rest, q) for q in pats) and (not dist or os.path.basename(os.path.dirname(path)) == 'dist') and (not empty or not content):
            gone[path] = content
    after = tree(p['grid'])
    expect = {k: v for k, v in before.items() if not confirm or k not in gone}
    lost = sorted(set(expect) - set(after))
    kept = sorted(set(after) - set(expect))
    assert not lost, 'cleanup %s deleted %s' % (' '.join(argv[1:]), lost[0])
    assert not kept, 'cleanup %s did not delete %s' % (' '.join(argv[1:]), kept[0])
    equal(after, expect, 'contents of the grid')
    kb = [len(v) // 1024 for v in gone.values()]
    equal(sorted(int(m) * (1024 if u == 'M' else 1) for m, u in re.findall(r'  \((\d+)([KM])B\)', out)), sorted(k if k < 1024 else k // 1024 * 1024 for k in kb), 'file sizes')
    equal(int(re.search('Total size: (.*) MB', out).group(1)), int(sum(kb) / 1024.), 'total size')
    listed = sorted(os.path.relpath(line.split('  (')[0].strip(), p['grid']) for line in out.splitlines() if ' (' in line and line.startswith(p['grid']))
    equal(listed, sorted(gone), 'files listed by cleanup %s' % ' '.join(argv[1:]))
    t.nontrivial(0 < len(gone) < len(before))


SKIP = ['.data', '.chk', '.chk_tmp', '.log', '.corr', '.py', '.m', '.py_mcsamples', '.pysamples']


@case(st.tuples(specs(), FILES, selection(), st.sampled_from(['dir', 'zip', 'dir', 'link']), st.booleans(), st.booleans(), st.booleans(), st.sampled_from([0, 0, 0.3, 0.5]),
                st.sampled_from([None, ['.m*'], ['.paramnames', '*.pdf']]), st.sampled_from([None, ['.minimum']]), st.sampled_from([0, 1, 0, 1, 2]), st.sampled_from([None, None, 0, 1, 2])),
      quick=300, thorough=3000, shards=3)
def copy_grid(c, t):
    """A copied grid has exactly the requested files of the selected jobs with their contents, less burn in, and reads as a grid."""
    s, files, sel, target, dist, chains_, config, burn, exts, skips, dry, old = c
    base = t.dir()
    p = prepare(s, base, REPO)
    if target == 'link':
        burn = 0
    with imports():
        batch, items = populate(p, files)
        before = tree(p['grid'])
        aged = set()
        if old is not None:  # some files are older than the limit asked for
            for k, path in enumerate(sorted(before)):
                x = owner(path, items)
                if x is not None and (len(x.name) if re.search(r'_\d\.txt$', path) else k) % 3 == old:
                    aged.add(path)
                    os.utime(os.path.join(p['grid'], path), (time.time() - 86400 * 2.2,) * 2)
        if dry == 1:  # as when python stores compiled settings
            os.makedirs(os.path.join(p['grid'], 'config', '__pycache__'))
            write(os.path.join(p['grid'], 'config', '__pycache__', 'x.pyc'), 'x')
        out = os.path.join(base, ('out.zip', 'out.arc')[len(files[0][1]) % 2] if target == 'zip' else ('out', 'out.zip.d', 'old.zips/out')[len(files[1][1]) % 3])
        argv = [p['grid'], out] + sel + ['--dist'] * dist + ['--chains'] * chains_ + ['--no_config'] * (not config) + (['--remove_burn_fraction', str(burn)] if burn else [])
        argv += (['--file_extensions'] + exts if exts else []) + (['--skip_extensions'] + skips if skips else []) + ['--sym_link'] * (target == 'link')
        argv += ['--zip'] * out.endswith('.arc') + (['--max_age_days', '2'] if old is not None else [])
        if dry == 0 and target == 'zip':
            write(out, 'precious')
            run_script('copyGridFiles.py', argv + ['--dryrun'], base)
            equal(read(out), 'precious', 'existing file after dry run')
            os.remove(out)
        run_script('copyGridFiles.py', argv, base)
        expect = {}
        for x in items.values():
            if not selected(x, sel):
                continue
            existing = before.get(os.path.relpath(x.chainRoot + '_1.txt', p['grid']))
            done = False
            if chains_ and existing is not None and os.path.relpath(x.chainRoot + '_1.txt', p['grid']) not in aged:
                i = 1
                while True:
                    f = os.path.relpath(x.chainRoot + '_%d.txt' % i, p['grid'])
                    if f not in before:
                        break
                    lines = before[f].splitlines(True)
                    if burn and not x.isImportanceJob:
                        lines = lines[int(len(lines) * burn):]
                    expect[f] = b''.join(lines)
                    i += 1
                done = bool(burn) and not x.isImportanceJob
            for path in before:
                d, f = os.path.split(path)
                if d + os.sep != x.relativePath and not (dist and d + os.sep == x.relativePath + 'dist' + os.sep):
                    continue
                if any(fnmatch.fnmatchcase(f, x.name + e) for e in exts or ['.*']) and not any(fnmatch.fnmatchcase(f, x.name + e) for e in skips or SKIP):
                    if path not in expect and path not in aged:
                        expect[path] = before[path]
            if done:
                prop = os.path.relpath(x.chainRoot + '.properties.ini', p['grid'])
                expect[prop] = None
        if config:
            for path in before:
                if path.startswith('config' + os.sep):
                    expect[path] = before[path]
        if target == 'zip':
            with zipfile.ZipFile(out) as z:
                names = [n for n in z.namelist() if not n.endswith('/')]
                equal(len(names), len(set(names)), 'number of different files in the archive') if not (exts and '*.pdf' in exts) else None
                got = {n: z.read(n) for n in names}
        else:
            got = tree(out)
            if target == 'link':
                for path in got:
                    assert os.path.islink(os.path.join(out, path)), '%s is not a link' % path
        missing, extra = sorted(set(expect) - set(got)), sorted(set(got) - set(expect))
        assert not missing, 'copy (%s) has no %s' % (' '.join(argv[2:]), missing[0])
        assert not extra, 'copy (%s) has %s' % (' '.join(argv[2:]), extra[0])
        for path, content in expect.items():
            if content is None:
                f = write(os.path.join(base, 'props.ini'), got[path].decode())
                ini = IniFile(f)
                assert ini.bool('burn_removed'), 'copied chain not marked as without burn in'
                old = before.get(path)
                equal(ini.string('label', ''), old.decode().split('=')[1].strip() if old else '', 'other properties')
            else:
                equal(got[path], content, 'contents of copied %s' % path)
        if target != 'zip' and config and chains_:
            batchjob.resetGrid(out)
            new = quiet(batchjob.readobject, out)
            want = [x.name for x in items.values() if not x.isImportanceJob and x.name + '_1.txt' in set(os.path.basename(q) for q in expect)]
            equal([x.name for x in new.items()], want, 'jobs of the copied grid')
            for x in new.items():
                equal(x.isBurnRemoved(), bool(burn), 'burn in of copied %s' % x.name)
        equal({k: v for k, v in tree(p['grid']).items() if 'pyobj' not in k}, {k: v for k, v in before.items() if 'pyobj' not in k}, 'original grid')
        t.nontrivial(0 < len(expect) < len(before))


@case(st.tuples(specs(), FILES, selection(), st.lists(st.sampled_from(['covmat', 'pdf', '_tri.pdf', '_*.pdf', '*.pdf', '.margestats']), min_size=1, max_size=2, unique=True),
                st.booleans(), st.booleans(), st.sampled_from([None, None, '0.0007', '100'])), quick=200, thorough=2000, shards=2)
def extract(c, t):
    """Extracting copies every matching result file of the selected jobs, under its own or its normalized name."""
    s, files, sel, exts, norm, rep, conv = c
    base = t.dir()
    p = prepare(s, base, REPO)
    with imports():
        batch, items = populate(p, files)
        before = tree(p['grid'])
        out = os.path.join(base, 'out')
        argv = [p['grid'], out] + exts + sel + ['--normalize_names'] * norm + ['--tag_replacements', 'plik', 'planck', 'TT', 'EE'] * rep + (['--converge', conv] if conv else [])
        run_script('extractDistFiles.py', argv, base)
    expect = {}
    for x in items.values():
        if not selected(x, sel) or conv and not converged(x, conv, before, p['grid'], missing=False):
            continue
        for path, content in before.items():
            d, f = os.path.split(path)
            if d + os.sep == x.relativePath + 'dist' + os.sep and any(fnmatch.fnmatchcase(f, x.name + (e if '.' in e else '.' + e)) for e in exts):
                if norm:
                    m = {'plik': 'planck', 'TT': 'EE'} if rep else {}
                    name = '_'.join(['base'] + sorted(x.param_set) + sorted(m.get(n, n) for n in x.data_set.names))
                    expect[name + f[len(x.name):]] = content
                else:
                    expect[f] = content
    got = tree(out)
    equal(sorted(got), sorted(expect), 'extracted files %s' % ' '.join(argv[2:]))
    for f in got:
        if not norm:
            equal(got[f], expect[f], 'contents of extracted %s' % f)
    t.nontrivial(len(expect) > 0)


@case(st.tuples(specs(small=True), FILES, selection(), st.dictionaries(st.sampled_from(['omegabh2', 'mnu', 'H0', 'nothere']),
                                                                      st.tuples(st.sampled_from(['x', 'a_much_longer_parameter_name', 'mnu', 'omegabh2', 'new.y']), st.none() | st.sampled_from(['L', '\\Sigma m_\\nu'])), min_size=1) | st.just({}),
                st.none() | st.dictionaries(st.sampled_from(['omegabh2', 'x', 'H0', 'a_much_longer_parameter_name']), st.sampled_from(['new label', '\\alpha_{s}']), min_size=1),
                st.sampled_from([True, True, True, False])), quick=300, thorough=3000, shards=2)
def rename(c, t):
    """Renaming changes the requested names and labels in parameter-name and best-fit files of the selected jobs, and no values."""
    s, files, sel, mapper, labels, confirm = c
    if not mapper and not labels:
        raise Discard()
    final = [mapper[k][0] if k in mapper else k for k in ('omegabh2', 'mnu', 'H0')]
    if len(set(final)) < 3:
        raise Discard()
    base = t.dir()
    p = prepare(s, base, REPO)
    with imports():
        batch, items = populate(p, files, always=('.paramnames',) + (('.minimum',) if files[0][3] else ()))
        before = tree(p['grid'])
        argv = [p['grid']] + sel + ['--confirm'] * confirm
        simple = [z for k in mapper if mapper[k][1] is None for z in (k, mapper[k][0])]
        if simple:
            argv += ['--old_new'] + simple
        mf = [(k, v[0], v[1]) for k, v in mapper.items() if v[1] is not None]
        if mf:
            argv += ['--map_file', write(os.path.join(base, 'map'), ''.join('%s %s %s\n' % x for x in mf) + '\n')]
        if labels:
            argv += ['--labelNames', write(os.path.join(base, 'lab.paramnames'), ''.join('%s\t%s\n' % x for x in labels.items()))]
        run_script('renameParam.py', argv, base)
        after = tree(p['grid'])
        changed = 0
        for path in before:
            x = owner(path, items)
            if x is None or not selected(x, sel) or not confirm or not (path.endswith('.paramnames') or path.endswith('.minimum')):
                equal(after.get(path), before[path], 'file %s' % path)
                continue
            if path.endswith('.paramnames'):
                old, new = [ParamNames(write(os.path.join(base, 'n.paramnames'), b[path].decode())) for b in (before, after)]
            else:
                old, new = [types.BestFit(write(os.path.join(base, 'n.minimum'), b[path].decode())) for b in (before, after)]
                equal([old.logLike, old.chiSquareds[0][1].chisq], [new.logLike, new.chiSquareds[0][1].chisq], 'likelihoods of %s' % path)
                if not os.path.exists(os.path.join(p['grid'], path[:-8] + '.paramnames')):
                    continue  # best-fit files are handled along with the names of their chain
                equal([q.best_fit for q in new.names], [q.best_fit for q in old.names], 'best-fit values in %s' % path)
            equal([q.isDerived for q in new.names], [q.isDerived for q in old.names], 'derived parameters in %s' % path)
            for a, b in zip(old.names, new.names):
                name, lab = mapper.get(a.name, (a.name, None))
                lab = a.label if lab is None else lab
                if labels and name in labels:
                    lab = labels[name]
                equal(b.name, name, 'name in %s' % path)
                equal(b.label, lab, 'label of %s in %s' % (name, path))
                if path.endswith('.paramnames'):
                    equal(b.comment, a.comment, 'comment of %s' % name)
                changed += name != a.name
        equal(sorted(after), sorted(before), 'files')
    t.nontrivial(changed > 0)


@case(st.tuples(specs(), FILES, selection(), st.booleans(), st.sampled_from(['', '--exists', '--notexist']), st.sampled_from(['', '--exist', '--checkpoint', '--running', '--stuck', '--converge']),
                st.booleans(), st.lists(st.tuples(st.sampled_from([None, '0.5', '0.02\nDone', '0.1\nRunning']), st.sampled_from([0, 1000])), min_size=4, max_size=4)),
      quick=300, thorough=2500, shards=2)
def listing(c, t):
    """Listings show each selected job in the requested state exactly once."""
    s, files, sel, normed, ex, conv, notrunning, stats = c
    base = t.dir()
    p = prepare(s, base, REPO)
    now = time.time()
    with imports():
        batch, items = populate(p, files)
        state = {}
        for i, x in enumerate(items.values()):
            stat, age = stats[(i + len(x.name)) % len(stats)]
            n = 0
            while os.path.exists('%s_%d.txt' % (x.chainRoot, n + 1)):
                os.utime('%s_%d.txt' % (x.chainRoot, n + 1), (now - age - 700 * n, now - age - 700 * n))
                n += 1
            if stat:
                write(x.chainRoot + '.converge_stat', stat)
            state[x.name] = (n, stat, age)
        out = run_script('listGrid.py', [p['grid']] + sel + [ex] * bool(ex) + ['--normed'] * normed, base)
        out2 = run_script('checkConverge.py', [p['grid']] + sel + [conv] * bool(conv) + ['0.0007'] * (conv == '--converge') + ['--not_running'] * notrunning, base)
    sel_items = [x for x in items.values() if selected(x, sel)]
    want = [x for x in sel_items if not ex or (state[x.name][0] > 0) == (ex == '--exists')]
    tags = sorted(set(x.paramtag for x in want))
    equal(out.splitlines(), ['%s (%s)' % (x.normed_name if normed else x.name, x.group) for tag in tags for x in want if x.paramtag == tag], 'list of jobs (%s)' % ex)
    running = lambda x: not (state[x.name][0] > 0 and state[x.name][2] > 300)
    gap = lambda x: os.path.exists(x.chainRoot + '_3.txt') and state[x.name][0] == 1
    dodgy = lambda x: state[x.name][0] > 0 and (gap(x) or state[x.name][0] > 1)
    lines = out2.splitlines()
    bad = lambda x: conv != '--converge' or os.path.exists(x.distRoot + '.converge') and float(types.ConvergeStats(x.distRoot + '.converge').worstR()) > .0007
    if conv in ('', '--exist', '--converge'):
        i = lines.index('Converge check...')
        missing = [x.split()[1] for x in lines[1:i] if x.startswith('... ')]
        equal(missing, [x.chainRoot for x in sel_items if state[x.name][0] == 0] if conv != '--exist' else [], 'chains that do not exist')
        equal([x.split()[1] for x in lines[i + 1:]], [x.chainRoot for x in sel_items if state[x.name][0] > 0 and (not notrunning or not running(x)) and bad(x)], 'chains to check')
    elif conv == '--stuck':
        equal(lines, ['Chain stuck?...' + x.name for x in sel_items if dodgy(x)], 'stuck chains')
    else:
        rows = [x for x in lines[1:] if x.startswith('... ')]
        exp = []
        for x in sel_items:
            stat = state[x.name][1]
            if stat and 'Done' not in stat and (not notrunning or not running(x)) and (conv != '--running' or running(x)):
                exp.append('... %s %s' % (x.chainRoot, float(stat.split('\n')[0])))
        equal(rows, exp, 'unfinished chains')
        if conv == '--running':
            equal([x for x in lines if 'stuck' in x], ['Chain stuck?...' + x.name for x in sel_items if state[x.name][1] and 'Done' not in state[x.name][1] and dodgy(x)], 'stuck chains')
    t.nontrivial(0 < len(want) < len(items))


@st.composite
def grid_pairs(draw):
    """Two grids, where importance runs of either may be full runs of the other."""
    a, b = draw(specs(small=True)), draw(specs(small=True))
    for x, y in draw(st.sampled_from([[], [(a, b)], [(b, a)], [(a, b), (b, a)]])):
        gx, gy = x['groups'][0], y['groups'][0]
        if not gx['imp']:
            gx['imp'] = [dict(names=['H0'], inis=[], opts={}, kind='list', cond='TT')]
        if gx['imp']:
            d = dict(gx['datasets'][0], names=gx['datasets'][0]['names'] + [n for n in gx['imp'][0]['names']], kind='none')
            if len(set(d['names'])) == len(d['names']) and gx['datasets'][0]['kind'] != 'add':
                gy['datasets'] = [d] + gy['datasets']
                gy['params'] = [gx['params'][0]] + [q for q in gy['params'] if sorted(q) != sorted(gx['params'][0])]
    return a, b


@case(st.tuples(grid_pairs(), FILES, FILES), quick=250, thorough=2500, shards=2)
def add_grid(c, t):
    """Adding a grid makes its jobs part of the other; importance runs it has as full runs are no longer listed."""
    (s, s2), files, files2 = c
    base = t.dir()
    p, p2 = prepare(s, os.path.join(base, 'a'), REPO), prepare(s2, os.path.join(base, 'b'), REPO)
    with imports():
        b1, items1 = populate(p, files)
        b2, items2 = populate(p2, files2)
        if {x.name for x in b1.items()} & {x.name for x in b2.items()}:
            raise Discard()
        run_script('addGridBatch.py', [p['grid'], p2['grid']], base)
        batch = quiet(batchjob.readobject, p['grid'])
        full = [x.name for x in b1.items()] + [x.name for x in b2.items()]
        equal([x.name for x in batch.items()], full, 'full runs of the joint grid')
        equal([x.name for x in batch.items(wantSubItems=False)], [x.name for x in b1.items()], 'own full runs')
        allnames = [x.name for x in batch.items(wantImportance=True)]
        t.nontrivial(len(allnames) < len(items1) + len(items2))
        for owner_items in (items1, items2):
            for name, x in owner_items.items():
                replaced = x.isImportanceJob and (name.replace('_post', '') in full or x.parent.isImportanceJob and x.parent.name.replace('_post', '') in full)
                equal(allnames.count(name) if name not in items1 or name not in items2 else min(1, allnames.count(name)), 0 if replaced else 1, 'listing of %s' % name)
        for x in b2.items():
            equal(batch.resolveRoot(x.name).chainRoot, x.chainRoot, 'chain of added %s' % x.name)


@case(st.tuples(specs(), FILES, selection(), st.sampled_from([[], ['--norun'], ['--update_only'], ['--notexist']]), st.sampled_from([None, 0.25]), st.booleans(), st.booleans(),
                st.booleans()), quick=100, thorough=600, shards=4)
def run_getdist(c, t):
    """Getdist is run for the selected jobs that need it, with settings by precedence."""
    s, files, sel, mode, burn, noplots, burn_removed, opts = c
    base = t.dir()
    p = prepare(s, base, REPO)
    with imports():
        if opts:
            f = os.path.join(p['sett'], p['module'] + '.py')
            write(f, read(f) + "\ngetdist_options = {'ignore_rows': 0.4, 'marker_a': 'grid', 'marker_b': 'grid'}\nfor _g in groups:\n    for _d in _g.datasets: _d.dist_settings = {'marker_b': 'data'}\n")
        batch, items = populate(p, files)
        now = time.time()
        for i, x in enumerate(items.values()):
            if os.path.exists(x.chainRoot + '_1.txt'):
                os.utime(x.chainRoot + '_1.txt', (now - 1000, now - 1000))
            if os.path.exists(x.distRoot + '.margestats'):
                os.utime(x.distRoot + '.margestats', (now - 500 * (i % 4), now - 500 * (i % 4)))
            if i % 3 == 0:
                write(x.chainRoot + '.properties.ini', 'burn_removed = T\n')
        write(os.path.join(p['inis'], 'gd.ini'), 'ignore_rows = 0.123\nmarker_c = default\n')
        log = os.path.join(base, 'log')
        write(log, '')
        stub = write(os.path.join(base, 'stub.sh'), 'echo "$1" >> %s\n' % log)
        argv = [p['grid']] + sel + mode + (['--burn_remove', str(burn)] if burn else []) + ['--burn_removed'] * burn_removed + ['--no_plots'] * noplots
        silent = len(files[1][1]) % 2 == 1
        text = run_script('runGridGetdist.py', argv + ['--exist'] * silent + ['--base_ini', 'gd.ini', '--command', '/bin/sh', '--command_params', stub], base)
    ran = read(log).split()
    expect, absent = [], []
    for i, x in enumerate(items.values()):
        f = os.path.join(p['grid'], 'getdist', x.name + '.ini')
        if not selected(x, sel):
            assert not os.path.exists(f), 'ini file for %s, which is not selected' % x.name
            continue
        ini = IniFile(f)
        equal(ini.string('file_root'), x.chainRoot, 'chain of ' + x.name)
        equal(ini.string('out_dir'), x.distPath, 'output directory of ' + x.name)
        rows = float((s['getdist'] or {}).get('ignore_rows', 0.123))
        if opts:
            rows = 0.4
        if x.isImportanceJob or burn_removed or i % 3 == 0:
            rows = 0
        elif burn:
            rows = burn
        equal(ini.float('ignore_rows'), float(rows), 'burn in of ' + x.name)
        equal(ini.string('marker_c'), 'default', 'default setting of ' + x.name)
        equal(ini.bool('no_plots', False), noplots, 'plots of ' + x.name)
        if opts:
            equal([ini.string('marker_a'), ini.string('marker_b')], ['grid', 'data'], 'settings of ' + x.name)
        if x.isImportanceJob:
            equal(ini.string('compare1'), x.parent.chainRoot, 'comparison of ' + x.name)
        exists = os.path.exists(x.chainRoot + '_1.txt')
        marge = os.path.exists(x.distRoot + '.margestats')
        if '--norun' in mode or '--notexist' in mode and marge or '--update_only' in mode and (not exists or marge and 1000 >= 500 * (i % 4)):
            continue
        if exists:
            expect.append(f)
        elif not silent:
            absent.append('Chains do not exist yet: ' + x.chainRoot)
    equal(ran, expect, 'getdist runs of %s' % ' '.join(argv[1:]))
    equal([line for line in text.splitlines() if 'not exist' in line], absent, 'chains said not to exist by %s' % ' '.join(argv[1:]))
    t.nontrivial(0 < len(expect) < len(items))


@case(st.tuples(specs(), FILES, selection(), st.sampled_from([1, 2, 3]), st.booleans(), st.sampled_from(['', 'sub/', 'new/sub/']), st.sampled_from([None, 1, 2])),
      quick=100, thorough=600, shards=4)
def tables(c, t):
    """Table and comparison scripts print the constraints of each selected job, from its own result files."""
    s, files, sel, limit, allim, where, cols = c
    base = t.dir()
    p = prepare(s, base, REPO)
    lab = write(os.path.join(base, 'lab.paramnames'), 'omegabh2\t\\Omega_{\\rm b}h^2\nmnu\tm_\\nu\nH0\tH_0\n')
    with imports():
        batch, items = populate(p, files, good=True)
        idx = {n: i for i, n in enumerate(items)}
        argv = [p['grid'], where + 'tab'] + sel + ['--limit', str(limit), '--paramNameFile', lab] + ['--all_limits'] * allim + (['--columns', str(cols)] if cols else [])
        os.makedirs(os.path.join(base, 'sub'))
        run_script('makeTables.py', argv, base)
        chosen = [x for x in items.values() if selected(x, sel) and os.path.exists(x.chainRoot + '_1.txt')]
        tags = sorted(set(x.paramtag for x in chosen))
        order = [x for tag in tags for x in chosen if x.paramtag == tag]
        bases = {x.normed_data: x for x in chosen if not x.param_set}
        names = [where + 'tab_limit%d.tex' % k for k in (1, 2, 3)] if allim else [where + 'tab.tex']
        made = sorted(f for f in tree(base) if f.endswith('.tex'))
        equal(made, sorted(names), 'latex files')
        for k, f in enumerate(names):
            lim = k + 1 if allim else limit
            text = read(os.path.join(base, f))
            parts = text.split('\\subsection{ ')[1:]
            equal([q.split('}\n')[0].replace('{\\textunderscore}', '_').replace('\\textunderscore', '_').replace('{', '') for q in parts], [x.name for x in order], 'jobs in the tables')
            for x, q in zip(order, parts):
                i = idx[x.name]
                marge = types.MargeStats(x.distRoot + '.margestats', lab)
                bf = None
                if os.path.exists(x.chainRoot + '.minimum'):
                    bf = 50 + i
                    assert 'Best-fit $\\chi^2_{\\rm eff} = %.2f$' % (2 * bf) in q, 'best fit of %s not in table' % x.name
                    assert 'plik: %.2f ' % (3 + i) in q, 'likelihood contribution of %s not in table' % x.name
                    ref = bases.get(x.normed_data)
                    if ref is not None and ref is not x and os.path.exists(ref.chainRoot + '.minimum'):
                        assert '$\\Delta \\chi^2_{\\rm eff} = %.2f$' % (2 * (bf - 50 - idx[ref.name])) in q, 'change of best fit of %s not in table' % x.name
                else:
                    assert 'Best-fit' not in q, 'best fit of %s from nowhere' % x.name
                for par in ('omegabh2', 'mnu', 'H0'):
                    tex = marge.texValues(types.TableFormatter(), par, limit=lim)[0]
                    assert tex in q, '%s of %s at limit %d not in table' % (par, x.name, lim)
                like = types.LikeStats(x.distRoot + '.likestats')
                assert '$\\bar{\\chi}^2_{\\rm eff} = %.2f$' % (2 * like.meanLogLike) in q, 'mean likelihood of %s' % x.name
        # comparison of parameters over models
        run_script('makeParamCompare.py', [p['grid'], '--params', 'mnu', 'H0', '--latex_filename', where + 'comp', '--limit', str(limit), '--paramNameFile', lab,
                                           '--endline', 'EOL'] + sel, base)
        got = [x for x in read(os.path.join(base, where + 'comp.tex')).splitlines() if x]
        chosen = [x for x in items.values() if selected(x, sel)]
        expect = []
        for par, label in (('mnu', 'm_\\nu'), ('H0', 'H_0')):
            for tag in dict.fromkeys(x.paramtag for x in chosen):
                cells = [label]
                for x in [x for x in chosen if x.paramtag == tag]:
                    marge = types.MargeStats(x.distRoot + '.margestats')
                    if os.path.exists(x.chainRoot + '.minimum'):
                        marge.addBestFit(types.BestFit(x.chainRoot + '.minimum'))
                    for par2 in ('mnu', 'H0'):
                        res = marge.texValues(types.TableFormatter(), par2, limit=limit)
                        cells += ([res[1]] if len(res) > 1 else []) + [res[0]]
                expect.append(' & '.join(cells) + 'EOL')
        equal(got, expect, 'comparison table')
        t.nontrivial(0 < len(chosen) < len(items))


@case(st.tuples(specs(), st.sampled_from([['--nx', '2'], ['--param_list', 'p.paramnames'], ['--tri_params', 'x', 'y'], ['--D2_param', 'x', '--D2_y_params', 'y'],
                                                   ['--compare_alldata', '--size_inch', '3'], ['--compare_importance'], ['--compare_importance']]), st.integers(0, 1)), quick=12, thorough=60, shards=3)
def plots(c, t):
    """Plot scripts for a grid make the requested figure of every selected job."""
    s, mode, k = c
    base = t.dir()
    if '--compare_importance' in mode:
        s = dict(s, skip=s['skip'] + [2, 5, 7])
    p = prepare(s, base, REPO)
    with imports():
        sys.path.insert(0, p['sett'])
        batch = quiet(gridconfig.makeGrid, p['grid'], p['module'])
        items = list(batch.items())[k::2][:2]
        rng = np.random.RandomState(1)
        for x in items + [imp for x in items for imp in x.importanceItems]:
            for i in (1, 2):
                np.savetxt('%s_%d.txt' % (x.chainRoot, i), np.column_stack([np.ones(60), np.arange(60)[::-1], rng.normal(size=(60, 3))]))
            write(x.chainRoot + '.paramnames', 'x x\ny y\nz z\n')
        write(os.path.join(base, 'p.paramnames'), 'y y\n')
        run_script('makePlots.py', [p['grid'], 'plots', '--outputs', 'png', '--noimportance'] + mode, base)
    tag = '_tri' if '--tri_params' in mode else '_x_2D' if '--D2_param' in mode else ''
    names = sorted(set(x.paramtag for x in items)) if '--compare_alldata' in mode else sorted(x.name for x in items)
    equal(sorted(os.listdir(os.path.join(base, 'plots'))), sorted(n + tag + '.png' for n in names), 'plots')
    t.nontrivial(len(items) > 1)


@st.composite
def comparable(draw):
    """A grid where many jobs have data in common."""
    s = draw(specs(small=True))
    g = s['groups'][0]
    combos = draw(st.lists(st.lists(st.sampled_from(['plik', 'TT', 'BAO', 'lowl']), min_size=1, max_size=3, unique=True), min_size=3, max_size=6, unique_by=lambda x: tuple(sorted(x))))
    g['datasets'] = [dict(names=x, kind='none') for x in combos]
    g['params'] = draw(st.sampled_from([[[], ['mnu']], [['mnu'], []], [[], ['mnu'], ['r', 'mnu']], [['r']], [['mnu'], ['r', 'mnu'], ['r']]]))
    g['imp'] = [dict(x, kind='list') for x in g['imp'][:1]]
    s['skip'] = s['skip'][:1]
    s['imp'] = s['filters'] = None
    return s


def datatag(draw, combos):
    """a data tag of a job, with the data in some order, or of no job"""
    c = list(draw(st.permutations(draw(st.sampled_from(combos + [['lowl', 'plik']])))))
    return '_'.join(c)


@st.composite
def plot_requests(draw):
    s = draw(comparable())
    g = s['groups'][0]
    combos = [d['names'] for d in g['datasets']]
    mode = draw(st.sampled_from(['', 'data', 'data', 'alldata', 'importance', 'paramtag', 'replacing', 'replacing']))
    arg = []
    if mode == 'data':
        arg = draw(st.lists(st.composite(lambda d: datatag(d, combos))(), min_size=1, max_size=3, unique_by=lambda x: tuple(sorted(x.split('_')))))
    elif mode == 'importance':
        arg = draw(st.sampled_from([[], [], g['imp'][0]['names'][:1] if g['imp'] else ['BAO'], ['_'.join(g['imp'][0]['names'])] if g['imp'] else ['BAO']]))
    elif mode == 'paramtag':
        arg = draw(st.lists(st.sampled_from(['base', 'base_mnu', 'base_r', 'base_r_mnu']), min_size=1, max_size=2, unique=True))
    elif mode == 'replacing':
        arg = list(draw(st.permutations(['plik', 'TT', 'BAO', 'lowl'])))[:draw(st.integers(2, 3))]
    if mode == 'importance':  # some of the importance runs
        s['skip'] = s['skip'] + draw(st.lists(st.integers(len(combos) * len(g['params']), 40), max_size=2))
    kind = draw(st.sampled_from(['1d', '1d', '2d', 'tri']))
    return dict(s=s, mode=mode, arg=arg, kind=kind, sel=draw(selection()), files=draw(FILES), allhave=draw(st.booleans()), outtag=draw(st.sampled_from([None, None, 'mytag'])),
                legend=draw(st.sampled_from([None, ['one', 'two']])), ncol=draw(st.sampled_from([None, 3])), nx=draw(st.sampled_from([None, 2])), filled=draw(st.booleans()),
                outputs=draw(st.sampled_from([None, ['png'], ['png', 'eps']])), size=draw(st.sampled_from([None, 3.])), plist=draw(st.booleans()))


def norm(names):
    return '_'.join(sorted(names))


def grouped(items):
    out = {}
    for x in items:
        out.setdefault(x.paramtag, []).append(x)
    return sorted(out.items())


@case(plot_requests(), quick=300, thorough=2500, shards=3)
def comparison_plots(c, t):
    """Each requested comparison is plotted once, with exactly the chains it compares."""
    from getdist import plots as gplots
    s, mode, arg = c['s'], c['mode'], c['arg']
    base = t.dir()
    p = prepare(s, base, REPO)
    calls = []

    def record(kind):
        def f(self, roots, *args, **kwargs):
            calls.append([kind, list(roots), args, kwargs, self.settings.subplot_size_inch, []])
        return f

    def export(self, fname=None, *args, **kwargs):
        calls[-1][-1].append(fname)

    argv = [p['grid'], 'plots'] + c['sel'] + ['--allhave'] * c['allhave'] + (['--outtag', c['outtag']] if c['outtag'] else []) + (['--legend_labels'] + c['legend'] if c['legend'] else [])
    argv += (['--legend_ncol', str(c['ncol'])] if c['ncol'] else []) + (['--nx', str(c['nx'])] if c['nx'] else []) + ['--filled'] * c['filled'] + (['--outputs'] + c['outputs'] if c['outputs'] else [])
    argv += ['--size_inch', str(c['size'])] if c['size'] else []
    if c['plist']:
        argv += ['--param_list', 'p.paramnames']
    argv += {'1d': [], '2d': ['--D2_param', 'x', '--D2_y_params', 'y', 'z'], 'tri': ['--tri_params', 'x', 'y']}[c['kind']]
    argv += ['--compare_' + mode] + arg if mode else []
    names = dict(plots_1d='1d', plots_2d='2d', triangle_plot='tri')
    saved = {k: getattr(gplots.GetDistPlotter, k) for k in list(names) + ['export']}
    with imports():
        batch, items = populate(p, c['files'])
        for x in items.values():
            if len(x.name) % 4:
                write(x.chainRoot + '_1.txt', '1 1 1\n')
        for m in p['cand']:  # left over from before the run was skipped
            if m.name in p['skip'] and m.parent.name in items:
                write(items[m.parent.name].chainPath + m.name + '_1.txt', '1 1 1\n')
        try:
            for k, v in names.items():
                setattr(gplots.GetDistPlotter, k, record(v))
            gplots.GetDistPlotter.export = export
            run_script('makePlots.py', argv, base)
        finally:
            for k, v in saved.items():
                setattr(gplots.GetDistPlotter, k, v)
    chosen = [x for x in items.values() if selected(x, c['sel']) and os.path.exists(x.chainRoot + '_1.txt')]
    if mode == 'replacing':
        if c['sel'][:1] == ['--data']:
            chosen = [x for x in items.values() if {'plik'} | set(arg) & set(x.data_set.names) and os.path.exists(x.chainRoot + '_1.txt') and set(x.data_set.names) & ({'plik'} | set(arg))]
        else:
            chosen = [x for x in chosen if set(x.data_set.names) & set(arg)]
    data1 = c['sel'][:1] == ['--data'] and c['kind'] == '1d' and mode != 'alldata'
    tag = '_plik' if c['sel'][:1] == ['--data'] and c['kind'] == '1d' and mode == 'alldata' else ''
    tag = {'1d': tag, '2d': '_x_2D', 'tri': '_tri'}[c['kind']]
    if c['outtag']:
        tag = '_' + c['outtag'] + tag
    expect = []
    for ptag, batch_items in grouped(chosen):
        if mode == 'data':
            have = [x for d in arg for x in batch_items if norm(x.data_set.names) == norm(d.split('_'))]
            if have and not (c['allhave'] and len(have) != len(arg)):
                expect.append((ptag, [x.name for x in have]))
        elif mode == 'alldata':
            expect.append((ptag, [x.name for x in batch_items]))
        elif mode == 'replacing':
            for x in batch_items:
                if arg[0] in x.data_set.names:
                    wants = [norm(x.data_set.names)] + [norm([r if n == arg[0] else n for n in x.data_set.names]) for r in arg[1:]]
                    have = [y for w in dict.fromkeys(wants) for y in batch_items if norm(y.data_set.names) == w]
                    if len(have) != len({norm(y.data_set.names) for y in have}) or any(len(set(w.split('_'))) < len(w.split('_')) for w in wants):
                        raise Discard()  # several chains for the same data
                    if len(have) > 1 and not (c['allhave'] and len(have) != len(arg)):
                        expect.append((x.name + '-vs-' + '-'.join(arg[1:]), [y.name for y in have]))
        elif mode == 'importance':
            for x in batch_items:
                if not x.isImportanceJob:
                    expect.append((x.name, [x.name] + [y.name for y in items.values() if y.isImportanceJob and y.parent.name == x.name and os.path.exists(y.chainRoot + '_1.txt')
                                                       and (not arg or y.name[len(x.name) + len('_post_'):] in arg)]))
        elif mode == 'paramtag':
            for x in batch_items:
                if x.paramtag not in arg:
                    have = []
                    for q in arg:
                        same = [y for y in items.values() if sorted(y.param_set) == sorted(q.split('_')[1:]) and norm(y.data_set.names) == norm(x.data_set.names)]
                        have.append([y.name for y in same])
                    if any(len(h) > 1 for h in have):
                        raise Discard()
                    have = [h[0] for h in have if h and os.path.exists(items[h[0]].chainRoot + '_1.txt')]
                    if have:
                        expect.append((x.name + '-vs-' + '-'.join(arg), [x.name] + have))
        else:
            expect += [(x.name, [x.name]) for x in batch_items]
    got = []
    for kind, roots, args, kwargs, size, files in calls:
        equal(kind, c['kind'], 'kind of plot')
        assert files, 'plot of %s not saved' % roots
        exts = c['outputs'] or ['pdf']
        equal([os.path.splitext(f)[1][1:] for f in files], exts, 'formats of plots')
        stems = {os.path.splitext(f)[0] for f in files}
        equal(len(stems), 1, 'names of the files of a plot')
        stem = stems.pop()
        equal(os.path.dirname(stem), os.path.join(os.path.realpath(base), 'plots') if os.path.realpath(os.path.dirname(stem)) == os.path.dirname(stem) else os.path.join(base, 'plots'), 'directory of plots')
        if data1 and stem.endswith(tag + '_plik') and os.path.basename(stem)[:-len(tag + '_plik')] in [e[0] for e in expect]:
            stem = stem[:-5]  # also if not comparing all data
        assert stem.endswith(tag), 'plot %s without %s' % (stem, tag)
        name = os.path.basename(stem)[:len(os.path.basename(stem)) - len(tag)]
        got.append((name, roots))
        if c['size']:
            equal(size, c['size'], 'size of subplots')
        equal(kwargs.get('legend_labels'), c['legend'], 'legend labels')
        if kind != 'tri':
            equal(kwargs['legend_ncol'], c['ncol'] or (2 if len(roots) > 2 else 1), 'columns of legend')
            equal(kwargs['nx'], c['nx'], 'plots in a row')
        else:
            equal(list(args[0]), ['x', 'y'], 'parameters')
            equal(bool(kwargs.get('filled_compare') or kwargs.get('filled')), c['filled'], 'filled contours')
        if kind == '2d':
            equal([args[0], kwargs['params2']], ['x', ['y', 'z']], 'parameters')
            equal(bool(kwargs['filled']), c['filled'], 'filled contours')
        if kind == '1d':
            equal(kwargs.get('param_list'), 'p.paramnames' if c['plist'] else None, 'file of parameters')
    equal(got, expect, 'plots made by %s' % ' '.join(argv[2:]))
    t.nontrivial(any(len(r) > 1 for _, r in expect))


@st.composite
def table_requests(draw):
    s = draw(comparable())
    combos = [d['names'] for d in s['groups'][0]['datasets']]
    mode = draw(st.sampled_from(['', 'delta_paramtag', 'none', 'from_datatag', 'from_datatag', 'from_paramtag', 'adding', 'adding', 'replacing', 'replacing', 'compare', 'ignore', 'bestfitonly']))
    c = dict(s=s, mode=mode, arg=[], sel=draw(st.sampled_from([[], [], ['--noimportance'], ['--data', 'plik'], ['--skip_data', 'BAO']])), files=draw(FILES))
    if mode in ('delta_paramtag', 'from_paramtag'):
        c['arg'] = [draw(st.sampled_from(['base', 'base_mnu', 'base_r_mnu']))]
    elif mode == 'from_datatag':
        wide = [a + [n for n in i['names'] if n not in a] for a in combos for i in s['groups'][0]['imp']]
        tag = draw(st.sampled_from(combos + [['lowl', 'plik']])) if not wide or draw(st.booleans()) else draw(st.sampled_from(wide))
        c['arg'] = ['_'.join(draw(st.sampled_from([tag, sorted(tag), draw(st.permutations(tag))])))]
    elif mode in ('adding', 'ignore'):
        c['arg'] = draw(st.lists(st.sampled_from(['TT', 'BAO', 'lowl', 'plik']), min_size=1, max_size=2, unique=True))
    elif mode == 'replacing':
        c['arg'] = list(draw(st.permutations(['plik', 'TT', 'BAO', 'lowl'])))[:draw(st.integers(2, 3))]
    elif mode == 'compare':
        c['arg'] = draw(st.lists(st.sampled_from(combos).map('_'.join), min_size=1, max_size=3, unique=True))
    c.update(only=draw(st.booleans()), shift=draw(st.sampled_from([None, 'indep', 'subset'])), nobf=draw(st.integers(0, 3)) == 0, separate=draw(st.booleans()), columns=draw(st.sampled_from([1, 2, 3])),
             limit=draw(st.sampled_from([1, 2])), converge=draw(st.sampled_from([None, None, .02, .1])), titles=draw(st.booleans()), header=draw(st.booleans()),
             blocks=draw(st.sampled_from([None, None, 'mnu', 'omegabh2;mnu'])), plist=draw(st.sampled_from([None, None, ['mnu', 'H0'], ['H0']])), average=draw(st.integers(0, 3)) == 0)
    if c['average']:
        for d in s['groups'][0]['datasets']:
            if draw(st.integers(0, 2)) == 0:
                d['dist'] = {'ignore_rows': draw(st.sampled_from([0.6, 0]))}
    return c


def samples_of(i):
    r = np.random.RandomState(i)
    n = 150 + 20 * i
    return np.column_stack([r.randint(1, 4, n), r.gamma(2, size=n), r.normal(.02 + i, .1, n), r.normal(.1 * i, .5, n), r.normal(70 + i, 1 + i, n)])


@case(table_requests(), quick=300, thorough=2000, shards=4)
def comparison_tables(c, t):
    """Tables of changes compare each result with the one asked for and no other."""
    s, mode, arg = c['s'], c['mode'], c['arg']
    base = t.dir()
    p = prepare(s, base, REPO)
    lab = write(os.path.join(base, 'lab.paramnames'), 'omegabh2\t\\Omega_{\\rm b}h^2\nmnu\tm_\\nu\nH0\tH_0\n')
    average = c['average'] and mode in ('adding', 'replacing')
    argv = [p['grid'], 'tab'] + c['sel'] + ['--paramNameFile', lab, '--limit', str(c['limit']), '--columns', str(c['columns'])] + ['--changes_only'] * c['only'] + ['--nobestfit'] * c['nobf']
    argv += (['--shift_sigma_' + c['shift']] if c['shift'] else []) + ['--separate_tex'] * c['separate'] + (['--converge', str(c['converge'])] if c['converge'] else [])
    argv += ['--systematic_average'] * average + (['--blockEndParams', c['blocks']] if c['blocks'] else [])
    if c['header']:
        argv += ['--header_tex', write(os.path.join(base, 'head.inc'), 'HEADER TEXT\n'), '--height', '7in', '--width', '9in']
    plist = None
    if c['plist']:
        f = write(os.path.join(base, 'p.paramnames'), '\n'.join(c['plist']) + '\n')
        argv += ['--paramList', f]
        plist = ParamNames(f)
    argv += {'': [], 'delta_paramtag': ['--delta_chisq_paramtag'], 'none': ['--no_delta_chisq'], 'from_datatag': ['--changes_from_datatag'], 'from_paramtag': ['--changes_from_paramtag'],
             'adding': ['--changes_adding_data'], 'replacing': ['--changes_replacing'], 'compare': ['--compare'], 'ignore': ['--changes_data_ignore'], 'bestfitonly': ['--bestfitonly']}[mode] + arg
    if mode == 'compare' and c['titles']:
        argv += ['--titles', ';'.join('title%d' % i for i in range(len(arg)))]
    with imports():
        batch, items = populate(p, c['files'], good=True)
        idx = {n: i for i, n in enumerate(items)}
        for x in items.values():
            if len(x.name) % 4:
                write(x.chainRoot + '_1.txt', '1 1 1\n')
            if average and os.path.exists(x.chainRoot + '_1.txt'):
                for f in ('_2.txt', '_3.txt', '_4.txt', '.ranges', '.py_mcsamples'):
                    if os.path.exists(x.chainRoot + f):
                        os.remove(x.chainRoot + f)
                np.savetxt(x.chainRoot + '_1.txt', samples_of(idx[x.name]), fmt='%.8g')
                write(x.chainRoot + '.paramnames', 'omegabh2\t\\Omega_b h^2\nmnu\tm_\\nu\nH0*\tH_0\n')
        log = run_script('makeTables.py', argv, base)
        assert 'ERROR' not in log, log
        text = read(os.path.join(base, 'tab.tex'))
        made = sorted(f for f in tree(base) if f.endswith('.tex'))
        sel = list(c['sel'])
        pool = [x for x in items.values() if selected(x, sel) and (mode == 'bestfitonly' or os.path.exists(x.chainRoot + '_1.txt'))]
        if mode == 'replacing' and sel[:1] == ['--data']:
            pool = [x for x in items.values() if set(x.data_set.names) & ({'plik'} | set(arg)) and os.path.exists(x.chainRoot + '_1.txt')]
        groups = grouped(pool)
        lines = text.split('\n')
        assert ('HEADER TEXT' in lines) == c['header'], 'header'
        assert ('paperheight=%s,paperwidth=%s' % (('7in', '9in') if c['header'] else ('13in', '12in'))) in text, 'page size'
        marge = lambda x: types.MargeStats(x.distRoot + '.margestats', lab)
        best = lambda x: types.BestFit(x.chainRoot + '.minimum', lab) if os.path.exists(x.chainRoot + '.minimum') else None

        def full(x, bf=True):
            m = marge(x)
            b = best(x)
            if bf and b is not None:
                m.addBestFit(b)
            return m

        def table(cols, res, **kw):
            return types.ResultTable(cols, res, limit=c['limit'], paramList=plist, blockEndParams=c['blocks'].split(';') if c['blocks'] else None, **kw).lines

        sections = text.split('\\newpage\\section{ ')[1:]
        same = lambda a, names: norm(a.data_set.names) == norm(names)
        if mode == 'compare':
            groups = [(ptag, [x for d in arg for x in xs if same(x, d.split('_'))]) for ptag, xs in groups]
            groups = [(ptag, xs) for ptag, xs in groups if len(xs) == len(arg)]
        conv = lambda x: not c['converge'] or mode == 'compare' or float(types.ConvergeStats(x.distRoot + '.converge').worstR()) <= c['converge']
        equal([q.split('}\n')[0].replace('{\\textunderscore', '_').replace('}', '') for q in sections],
              ['+'.join(xs[0].param_set) if xs[0].param_set else 'Baseline model' for _, xs in groups], 'sections')
        compared = 0
        separate = []
        for (ptag, xs), q in zip(groups, sections):
            if mode == 'compare':
                want = table(1, [full(x, not c['nobf']) for x in xs], titles=['title%d' % i for i in range(len(arg))] if c['titles'] else [x.datatag for x in xs])
                assert '\n'.join(want) in q, 'comparison of %s for %s: got %s, expected %s' % (arg, ptag, q, '\n'.join(want))
                compared += len(arg) > 1
                continue
            xs = [x for x in xs if conv(x)]
            parts = q.split('\\subsection{ ')[1:]
            expect = []
            for x in xs:
                ref = sref = None
                if mode in ('', 'from_datatag', 'ignore', 'delta_paramtag', 'bestfitonly'):
                    names = [n for n in x.data_set.names if mode != 'ignore' or n not in arg]
                    ref = [y for y in pool if same(y, names) and (y.paramtag == arg[0] if mode == 'delta_paramtag' else not y.param_set)]
                if mode == 'from_datatag':
                    sref = [y for y in xs if same(y, arg[0].split('_'))]
                elif mode == 'from_paramtag':
                    ref = sref = [y for y in pool if same(y, x.data_set.names) and y.paramtag == arg[0]]
                elif mode == 'adding':
                    ref = sref = [y for y in xs if same(y, [n for n in x.data_set.names if n not in arg])] if set(arg) & set(x.data_set.names) else []
                elif mode == 'replacing':
                    have = [r for r in arg[1:] if r in x.data_set.names]
                    ref = sref = [y for y in xs if arg[0] in y.data_set.names and same(y, [arg[0] if n == have[0] else n for n in x.data_set.names])] if have else []
                for r in (ref, sref):
                    if r and len(r) > 1:
                        raise Discard()  # several results for the same data
                ref, sref = ref[0] if ref else None, sref[0] if sref else None
                if mode in ('adding', 'replacing') and c['only'] and sref is None:
                    continue
                if average and sref is None:
                    continue
                expect.append((x, None if ref is x else ref, sref))
            title = lambda x, r: x.name + ('/' + r.name if average else '')
            equal([z.split('}\n')[0].replace('{\\textunderscore', '_').replace('}', '') for z in parts], [title(x, r) for x, _, r in expect], 'results for %s' % ptag)
            for (x, ref, sref), z in zip(expect, parts):
                i = idx[x.name]
                if sref is not None and (sref is x or same(sref, x.data_set.names) and mode != 'from_paramtag') and not average:
                    sref = None
                bf = best(x)
                caption = []
                if bf is not None:
                    caption.append(' Best-fit $\\chi^2_{\\rm eff} = %.2f$' % (2 * (50 + i)))
                    if ref is not None and best(ref) is not None:
                        caption.append('$\\Delta \\chi^2_{\\rm eff} = %.2f$' % (2 * (i - idx[ref.name])))
                if mode != 'bestfitonly':
                    like = types.LikeStats(x.distRoot + '.likestats').meanLogLike
                    caption.append('$\\bar{\\chi}^2_{\\rm eff} = %.2f$' % (2 * like))
                    if ref is not None:
                        caption.append('$\\Delta\\bar{\\chi}^2_{\\rm eff} = %.2f$' % (2 * (like - types.LikeStats(ref.distRoot + '.likestats').meanLogLike)))
                    caption.append('$R-1 =%s$' % types.ConvergeStats(x.distRoot + '.converge').worstR())
                got = z.split('\n')
                assert '; '.join(caption) in got, 'caption of %s: expected %s in %s' % (x.name, '; '.join(caption), z)
                want = None
                if mode == 'bestfitonly':
                    want = table(c['columns'], [bf]) if bf is not None else None
                elif average:
                    from getdist.mcsamples import loadMCSamples
                    a, b = [quiet(loadMCSamples, y.chainRoot, jobItem=y, no_cache=True, settings=dict(s['getdist'] or {}, **y.dist_settings)) for y in (x, sref)]
                    want = table(c['columns'], [quiet(lambda: a.getCombinedSamplesWithSamples(b).getMargeStats())])
                else:
                    kw = dict(refResults=full(sref), shiftSigma_indep=c['shift'] == 'indep', shiftSigma_subset=c['shift'] == 'subset') if sref is not None else {}
                    want = table(c['columns'], [full(x, not c['nobf'])], **kw)
                    compared += sref is not None or ref is not None
                if want is not None:
                    assert '\n'.join(want) in z, 'table of %s (%s) is not that compared with %s: got %s, expected %s' % (x.name, ' '.join(argv[2:]), sref and sref.name, z, '\n'.join(want))
                if bf is not None:
                    row = 'plik: %.2f ' % (3 + i)
                    if ref is not None and best(ref) is not None:
                        row += '($\\Delta$ %.2f) ' % (i - idx[ref.name])
                    assert '  ' + row in got, 'likelihoods of %s: no %r in %s' % (x.name, row, z)
                if c['separate']:
                    f = os.path.relpath(x.distRoot + '.tex', base)
                    separate.append(f)
                    assert read(os.path.join(base, f)).strip('\n') in z, 'separate table of ' + x.name
        equal(made, sorted(separate + ['tab.tex']), 'tables made')
        t.nontrivial(compared > 0)


@case(st.tuples(comparable(), FILES, st.sampled_from([None, ['plik_TT', 'TT'], ['BAO_plik', 'plik', 'lowl_BAO_TT']]), st.booleans(), st.sampled_from([None, ['mnu'], ['r', 'mnu']]), st.booleans(), st.booleans()),
      quick=150, thorough=1500, shards=2)
def parameter_table(c, t):
    """The comparison of a parameter has the models and data asked for, in the order asked for."""
    s, files, compare, single, chain_params, math, nobf = c
    base = t.dir()
    p = prepare(s, base, REPO)
    lab = write(os.path.join(base, 'lab.paramnames'), 'omegabh2\tob\nmnu\tm_\\nu\n')
    argv = [p['grid'], '--params', 'mnu', '--latex_filename', 'comp.txt', '--paramNameFile', lab] + ['--single_extparam'] * single + ['--mathColumns'] * math + ['--nobestfits'] * nobf
    argv += (['--compare'] + compare if compare else []) + (['--chain_name_params'] + chain_params if chain_params else [])
    with imports():
        batch, items = populate(p, files, good=True)
        run_script('makeParamCompare.py', argv, base)
        got = [x for x in read(os.path.join(base, 'comp.txt')).splitlines() if x]
        wants = [norm(d.split('_')) for d in compare or []]
        chosen = [x for x in items.values() if (not compare or norm(x.data_set.names) in wants) and (not single or len(x.param_set) == 1 and x.param_set[0] in (chain_params or ['mnu']))]
        m = '$%s$' if math else '%s'
        expect = []
        for ptag in dict.fromkeys(x.paramtag for x in chosen):
            cells = [m % 'm_\\nu']
            here = [x for x in chosen if x.paramtag == ptag]
            if len({norm(x.data_set.names) for x in here}) < len(here):
                raise Discard()
            if compare:
                here = [x for w in wants for x in here if norm(x.data_set.names) == w]
            for x in here:
                marge = types.MargeStats(x.distRoot + '.margestats')
                if not nobf and os.path.exists(x.chainRoot + '.minimum'):
                    marge.addBestFit(types.BestFit(x.chainRoot + '.minimum'))
                res = marge.texValues(types.TableFormatter(), 'mnu', limit=2)
                cells += ([m % res[1]] if len(res) > 1 else []) + [m % res[0]]
            expect.append(' & '.join(cells) + '\\cr')
        equal(got, expect, 'comparison table of %s' % ' '.join(argv[1:]))
        t.nontrivial(len(chosen) > 1 and len(chosen) < len(items))
