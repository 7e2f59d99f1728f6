"""Job queue: job scripts and settings, the index of submitted jobs, listing and deleting them, and selection of what to submit."""
import contextlib
import hashlib
import io
import os
import pickle
import runpy
import stat
import sys
import time
from hypothesis import strategies as st
from vlib import Discard, HarnessError, case, equal, raises, read, write
import gridspec
from gridspec import imports, prepare, specs
import paramgrid
from paramgrid import jobqueue
from getdist import types  # noqa (loaded before changing directory)

RULE = ('submissions, queue changes, listings and deletions with stand-in queue commands; non-trivial: a name submitted twice, a deletion with jobs in several states, '
        'a setting given at two levels, or a selection that takes only part of the grid')
ASSUMPTIONS = ['queue commands are stand-ins that keep a list of jobs in a scratch directory', 'one process at a time changes a job index']

PY = os.path.normpath(os.path.join(os.path.dirname(paramgrid.__file__), '..')) + os.sep
REPO = os.path.normpath(os.path.join(PY, '..'))

STUBS = {
    'qsub': '#!/bin/sh\nn=$(cat "$QDIR/count")\necho $((n+1)) > "$QDIR/count"\necho "$n Q" >> "$QDIR/queue"\necho "$n $*" >> "$QDIR/subs"\nprintf "$(cat "$QDIR/fmt")\\n" $n\n',
    'qstat': '#!/bin/sh\nif [ "$1" = "-help" ]; then echo usage; exit 0; fi\necho "header"\necho "------"\nf=$(cat "$QDIR/idfmt")\n'
             'while read n s; do printf "$f  0.5 jobname %s  %s  01/01/2020\\n" $n $USER $s; done < "$QDIR/queue"\n',
    'qdel': '#!/bin/sh\nfor i in "$@"; do echo "$i" >> "$QDIR/deleted"; done\n',
}


@contextlib.contextmanager
def cluster(d, fmt='%s.server', idfmt='%s.server'):
    """Stand-in queue commands on the path, working directory and environment in a scratch directory."""
    q = os.path.join(d, 'q')
    w = os.path.join(d, 'w')
    for x in (q, w, os.path.join(d, 'bin'), os.path.join(w, 'scripts')):
        os.makedirs(x)
    for name, text in STUBS.items():
        f = write(os.path.join(d, 'bin', name), text)
        os.chmod(f, 0o755)
    write(os.path.join(q, 'count'), '101\n')
    write(os.path.join(q, 'fmt'), fmt)
    write(os.path.join(q, 'idfmt'), idfmt)
    for x in ('queue', 'subs', 'deleted'):
        write(os.path.join(q, x), '')
    old, env = os.getcwd(), dict(os.environ)
    os.chdir(w)
    os.environ['PATH'] = os.path.join(d, 'bin') + ':/usr/bin:/bin'
    os.environ.update(QDIR=q, USER='tester')
    try:
        yield q
    finally:
        os.chdir(old)
        os.environ.clear()
        os.environ.update(env)


def quiet(f, *args, **kwargs):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        return f(*args, **kwargs)


def run_script(name, args):
    out = io.StringIO()
    old = sys.argv
    sys.argv = [PY + name] + list(args)
    try:
        with contextlib.redirect_stdout(out):
            try:
                runpy.run_path(PY + name, run_name='__main__')
            except SystemExit as e:
                assert not e.code, '%s %s: exit %s' % (name, args, e.code)
    finally:
        sys.argv = old
    return out.getvalue()


def queue(q):
    return {int(x.split()[0]): x.split()[1] for x in read(os.path.join(q, 'queue')).splitlines()}


def set_queue(q, jobs):
    write(os.path.join(q, 'queue'), ''.join('%d %s\n' % x for x in sorted(jobs.items())))


def deleted(q):
    return read(os.path.join(q, 'deleted')).split()


TEMPLATE = ('#!/bin/bash\n#N ##JOBNAME## nodes=##NUMNODES##:ppn=##PPN## wall=##WALLTIME## q=##QUEUE## c=##JOBCLASS## mem=##MEM_MB##\n#T tasks=##NUMTASKS## slots=##NUMSLOTS## '
            'runs=##NUMRUNS## mpn=##MPIPERNODE## cpn=##CHAINSPERNODE## one=##ONERUN## omp=##OMP##\ncd ##ROOTDIR##\n%s##COMMAND##\nwait\n')

# ------------------------------------------------------------------ scripts and settings

NUM = ['coresPerNode', 'chainsPerNode', 'nodes', 'mem_per_node']
TXT = ['walltime', 'program', 'queue', 'jobclass']


@st.composite
def job_settings(draw):
    s = dict(kw={}, tmpl={}, env={})
    for k in NUM + TXT:
        for level in ('kw', 'tmpl', 'env'):
            if draw(st.integers(0, 2)) == 0:
                i = draw(st.integers(0, 3))
                if k == 'coresPerNode':
                    v = [24, 48, 72, 120][i]
                elif k in NUM:
                    v = [1, 2, 3, 4][i]
                else:
                    v = '%s-%s-%d' % (k, level, i)
                s[level][k] = v
    s['kw'].setdefault('coresPerNode', 24) if not any('coresPerNode' in s[x] for x in ('kw', 'tmpl', 'env')) else None
    s['kw'].setdefault('chainsPerNode', 2) if not any('chainsPerNode' in s[x] for x in ('kw', 'tmpl', 'env')) else None
    s['kw'].setdefault('nodes', 2) if not any('nodes' in s[x] for x in ('kw', 'tmpl', 'env')) else None
    s['run'] = draw(st.booleans())
    s['seq'] = draw(st.booleans())
    s['cli'] = draw(st.booleans()) and not s['seq']
    s['inis'] = draw(st.lists(st.sampled_from(['grid/iniFiles/base_TT', 'grid.initial/iniFiles/base_mnu_TT', '/abs/base_r', 'x', 'base_n3.1']), min_size=1, max_size=3, unique=True))
    s['ext'] = draw(st.booleans())
    s['no_sub'] = draw(st.sampled_from([None, 'no_sub', 'dryrun']))
    s['crlf'] = draw(st.booleans())
    return s


@case(job_settings(), quick=120, thorough=3000, shards=4)
def job_script(s, t):
    """The submitted script has every placeholder filled from arguments, template defaults, environment and defaults, in that order."""
    with cluster(t.dir()) as q:
        lines = ''.join('##DEFAULT_%s: %s ##\n' % kv for kv in s['tmpl'].items())
        if s['run']:
            lines += '##RUN: go -n ##NUMMPI## ##PROGRAM## ##INI## > ##INIBASE##.log 2>&1 ##\n'
        with open('tmpl', 'w', newline='') as f:
            f.write((TEMPLATE % lines).replace('\n', '\r\n' if s['crlf'] else '\n'))
        for k, v in s['env'].items():
            os.environ['COSMOMC_' + k] = str(v)
        default = dict(mem_per_node=63900, walltime='24:00:00', program='./cosmomc', queue='', jobclass='')
        v = {k: s['kw'].get(k, s['tmpl'].get(k, s['env'].get(k, default.get(k)))) for k in NUM + TXT}
        t.nontrivial(any((k in s['kw']) + (k in s['tmpl']) + (k in s['env']) > 1 for k in NUM + TXT))
        inis = [i + ('.ini' if s['ext'] else '') for i in s['inis']]
        kw = dict(s['kw'], job_template='tmpl')
        if s['no_sub']:
            kw[s['no_sub']] = True
        if v['coresPerNode'] % v['chainsPerNode']:
            raise Discard()
        job = 'myjob'
        if s['cli']:
            job = os.path.basename(s['inis'][0])
            run_script('runMPI.py', inis + [x for k, val in sorted(kw.items()) for x in (['--' + k] if val is True else ['--' + k, str(val)])])
        else:
            quiet(jobqueue.submitJob, job, inis if len(inis) > 1 or s['ext'] else inis[0], sequential=s['seq'], **kw)
        if s['no_sub'] == 'dryrun':
            equal(os.listdir('scripts'), [], 'files of a dry run')
            return
        runs = 1 if s['seq'] else len(inis)
        nchains = v['nodes'] * v['chainsPerNode']
        omp = v['coresPerNode'] // (v['chainsPerNode'] * runs)
        ppn = v['chainsPerNode'] * runs * omp
        amp = '' if s['seq'] else ' &'
        if s['run']:
            comm = ['go -n %d %s %s.ini > %s.log 2>&1%s' % (nchains, v['program'], i, os.path.basename(i), amp) for i in s['inis']]
        else:
            comm = ['time mpirun -np %d %s %s.ini > ./scripts/%s.ini.log 2>&1%s' % (nchains, v['program'], i, os.path.basename(i), amp) for i in s['inis']]
        script = [x.strip() for x in read('scripts/%s_subscript' % job).split('\n')]
        assert not any('\r' in x for x in script)
        equal(script[1], '#N %s nodes=%d:ppn=%d wall=%s q=%s c=%s mem=%d' % (job, v['nodes'], ppn, v['walltime'], v['queue'], v['jobclass'], v['mem_per_node']), 'script header')
        equal(script[2], '#T tasks=%d slots=%d runs=%d mpn=%d cpn=%d one=%d omp=%d' % (
            nchains * runs, ppn * v['nodes'], runs, v['chainsPerNode'] * runs, v['chainsPerNode'], 1 if len(inis) == 1 or s['seq'] else 0, omp), 'script numbers')
        equal(script[3], 'cd ' + os.path.realpath(os.getcwd()), 'script directory')
        equal(script[-len(comm) - 2:-2], comm, 'commands')
        subs = read(os.path.join(q, 'subs')).split()
        if len(inis) > 1:
            equal(read('scripts/%s.batch' % job).split('\n'), s['inis'], 'batch file')
        if s['no_sub']:
            equal(subs, [], 'submissions')
            assert not os.path.exists('scripts/jobIndex.pyobj'), 'job that was not submitted is in the index'
        else:
            equal(subs, ['101', './scripts/%s_subscript' % job], 'submissions')
            equal(read('scripts/%s.sub' % job), '101.server', 'job id')
            j = jobqueue.loadJobIndex(None).jobSettings['101.server']
            equal([j.jobName, j.names, j.paramFiles, j.nchains, j.omp], [job, [os.path.basename(i) for i in s['inis']], s['inis'], nchains, omp], 'stored job')


@case(st.tuples(st.sampled_from(['kw', 'template', 'env', 'ext', 'none']), st.sampled_from(['kw', 'template', 'env', 'ext', 'none']), st.sampled_from(['7', ' 8', '9']),
                st.sampled_from(['int', 'float', 'str']), st.booleans()), quick=60, thorough=400)
def defaulted(c, t):
    a, b, val, tp, has_default = c
    tp = dict(int=int, float=float, str=str)[tp]
    order = ['kw', 'template', 'env', 'ext']
    vals = {}
    kw, env = {}, dict(os.environ)
    for i, w in enumerate((a, b)):
        if w != 'none':
            vals[w] = val.strip() + str(i)
    try:
        if 'kw' in vals:
            kw['thing'] = vals['kw']
        if 'env' in vals:
            os.environ['COSMOMC_thing'] = vals['env']
        if 'ext' in vals:
            os.environ['OTHER_thing'] = vals['ext']
        tmpl = 'x ##DEFAULT_thing: %s ##\n##DEFAULT_thin: 5##' % vals['template'] if 'template' in vals else None
        got = jobqueue.getDefaulted('thing', '33' if has_default else None, tp=tp, template=tmpl, ext_env='OTHER_thing', **kw)
    finally:
        os.environ.clear()
        os.environ.update(env)
    first = [vals[o] for o in order if o in vals] + (['33'] if has_default else [])
    equal(got, tp(first[0]) if first else None, 'setting from %s' % (first or 'nothing'))
    t.nontrivial(len(vals) > 1)


# ------------------------------------------------------------------ index histories

NAMES = ['base_TT', 'base_mnu_TT', 'base_r', 'base_TT_minimize']
FMTS = [('%s.server', '%s.server'), ('%s', '%s'), ('Moab.%s', 'Moab.%s'), ('%s', '%s.server'), ('%s', 'Moab.%s'),
        ('Your job %s ("name") has been submitted', '%s')]
sub = st.tuples(st.just('submit'), st.lists(st.sampled_from(NAMES), min_size=1, max_size=2, unique=True), st.booleans())
HISTORY = st.lists(st.one_of(
    sub, sub,
    st.tuples(st.just('queue'), st.integers(0, 5), st.sampled_from(['r', 'R', 'Q', 'gone', 'hold'])),
    st.tuples(st.just('alien'), st.sampled_from(['r', 'Q'])),
    st.tuples(st.just('delete'), st.sampled_from(['ids', 'numbers', 'roots', 'names', 'range', 'min']), st.lists(st.integers(0, 5), min_size=1, max_size=3, unique=True),
              st.booleans(), st.sampled_from(['', 'running', 'queued'])),
    st.tuples(st.just('forget'), st.sampled_from(NAMES)),
    st.tuples(st.just('list'), st.booleans(), st.booleans())), min_size=4, max_size=12)


@case(st.tuples(HISTORY, st.sampled_from(FMTS), st.booleans()), quick=240, thorough=4000, shards=6)
def index_history(c, t):
    """The index of submitted jobs, listings of the queue and deletions agree with a model after any history."""
    ops, (fmt, idfmt), own_path = c
    with cluster(t.dir(), fmt, idfmt) as q:
        write('tmpl', TEMPLATE % '##DEFAULT_coresPerNode: 24 ##\n##DEFAULT_chainsPerNode: 2 ##\n##DEFAULT_nodes: 1##\n')
        path = None
        if own_path:
            path = 'grid'
            os.mkdir(path)
        jobs = {}  # number -> (jobName, names, key), those in the index
        every = []
        latest, latest_name = {}, {}

        def key(n):
            return fmt % n if 'Your' not in fmt else str(n)

        def check():
            index = jobqueue.loadJobIndex(path)
            equal(sorted(index.jobSettings), sorted(key(n) for n in jobs), 'jobs in the index')
            equal(list(index.jobSequence), [key(n) for n in every if n in jobs], 'order of jobs')
            for n, (jn, names) in jobs.items():
                equal([index.jobSettings[key(n)].jobName, index.jobSettings[key(n)].names], [jn, names], 'job %s' % key(n))
            for table, last, what in ((index.rootNames, latest, 'root'), (index.jobNames, latest_name, 'job name')):
                for name, n in last.items():
                    got = table.get(name)
                    if n in jobs:
                        equal(got, key(n), 'job of %s %s' % (what, name))
                    else:
                        assert got is None or got in index.jobSettings, '%s %s refers to the deleted job %s' % (what, name, got)

        for op in ops:
            state = queue(q)
            if op[0] == 'submit':
                n = int(read(os.path.join(q, 'count')))
                jn = '-'.join(op[1])
                quiet(jobqueue.submitJob, jn, ['ini/' + x + '.ini' for x in op[1]], sequential=op[2], job_template='tmpl', batchPath=path)
                t.nontrivial(any(x in latest for x in op[1]))
                jobs[n] = (jn, list(op[1]))
                every.append(n)
                latest_name[jn] = n
                for x in op[1]:
                    latest[x] = n
                equal(sorted(queue(q)), sorted(list(state) + [n]), 'queue after submission')
            elif op[0] == 'queue':
                if every:
                    n = every[op[1] % len(every)]
                    if op[2] == 'gone':
                        state.pop(n, None)
                    elif n in state:
                        state[n] = op[2]
                    set_queue(q, state)
            elif op[0] == 'alien':
                state[int(read(os.path.join(q, 'count')))] = op[1]
                write(os.path.join(q, 'count'), '%d\n' % (int(read(os.path.join(q, 'count'))) + 1))
                set_queue(q, state)
            elif op[0] == 'list':
                running, queued = op[1], op[2]
                want = [n for n in sorted(state) if n in jobs and (running if state[n] in 'rR' else queued)]
                got = quiet(jobqueue.queue_job_details, path, running=running, queued=queued)
                equal(list(got[0]), [key(n) for n in want], 'listed job ids (running %s, queued %s, %s)' % (running, queued, state))
                equal(list(got[1]), [jobs[n][0] for n in want], 'listed job names')
                equal([list(x) for x in got[2]], [jobs[n][1] for n in want], 'listed chains')
                equal(sorted(quiet(jobqueue.queue_job_names, path, running=running, queued=queued)), sorted(sum([jobs[n][1] for n in want], [])), 'chains in the queue')
                t.label('list', want)
                if path is None and (running or queued):
                    out = run_script('runningJobs.py', ['--running'] * (not queued) + ['--queued'] * (not running))
                    equal([x.split()[-1] for x in out.splitlines() if '|' in x], [jobs[n][0] for n in want], 'jobs listed without a grid')
            elif op[0] == 'forget':
                index = jobqueue.loadJobIndex(path)
                target = index.jobNames.get(op[1])
                quiet(jobqueue.deleteJobNames, path, op[1])
                jobs = {n: j for n, j in jobs.items() if key(n) != target}
            elif op[0] == 'delete' and every:
                how, idx, confirm, only = op[1:]
                pick = [every[i % len(every)] for i in idx]
                pick = [n for i, n in enumerate(pick) if n not in pick[:i]]
                index = jobqueue.loadJobIndex(path)
                kw = dict(confirm=confirm)
                if only:
                    kw[only] = True
                if how == 'ids':
                    kw['jobIds'] = [key(n) for n in pick]
                    targets = pick
                elif how == 'numbers':
                    kw['jobIds'] = list(pick)
                    targets = pick
                elif how == 'range':
                    kw['jobId_minmax'] = [min(pick), max(pick)]
                    targets = [n for n in every if min(pick) <= n <= max(pick)]
                elif how == 'min':
                    kw['jobId_min'] = min(pick)
                    targets = [n for n in every if n >= min(pick)]
                else:
                    table = index.rootNames if how == 'roots' else index.jobNames
                    names = sorted(table)
                    names = [names[i % len(names)] for i in idx] if names else ['nothing']
                    kw['rootNames' if how == 'roots' else 'jobNames'] = names if len(names) > 1 else names[0]
                    targets = [n for n in every if key(n) in [table.get(x) for x in names]]
                targets = [n for n in targets if n in jobs]
                before = len(deleted(q))
                quiet(jobqueue.deleteJobs, path, **kw)
                active = [n for n in targets if n in state and (not only or (only == 'running') == (state[n] in 'rR'))]
                equal(sorted(deleted(q)[before:]), sorted(key(n) for n in active) if confirm else [], 'cancelled jobs (%s, %s, %s)' % (how, kw, state))
                if confirm:
                    for n in active:
                        state.pop(n)
                    set_queue(q, state)
                    gone = active if only else targets
                    jobs = {n: j for n, j in jobs.items() if n not in gone}
                    t.nontrivial(bool(jobs) and bool(gone))
            check()


@case(st.tuples(st.integers(0, 3), st.integers(1, 40), st.sampled_from(['add', 'delete'])), quick=24, thorough=160)
def index_crash(c, t):
    """A crash at any point of an index update leaves the index as before or as after the update."""
    n, point, op = c
    with cluster(t.dir()) as q:
        os.mkdir('grid')

        def job(i):
            j = jobqueue.jobSettings.__new__(jobqueue.jobSettings)
            j.jobId, j.jobName, j.names = '%d.server' % i, 'job%d' % i, ['root%d' % k for k in range(i * 50)]
            return j

        for i in range(n):
            jobqueue.addJobIndex('grid', job(i))
        if op == 'delete' and not n:
            raise Discard()
        before = sorted(jobqueue.loadJobIndex('grid').jobSettings)
        pid = os.fork()
        if pid == 0:
            count = [0]
            fn = jobqueue.__file__

            def tracer(frame, event, arg):
                if frame.f_code.co_filename != fn:
                    return None
                if event == 'line':
                    count[0] += 1
                    if count[0] == point:
                        os._exit(7)
                return tracer

            sys.settrace(tracer)
            try:
                if op == 'add':
                    jobqueue.addJobIndex('grid', job(n))
                else:
                    jobqueue.deleteJobNames('grid', 'job0')
            except BaseException:
                os._exit(9)
            os._exit(0)
        code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
        assert code in (0, 7), 'index update failed'
        after = before + ['%d.server' % n] if op == 'add' else [x for x in before if x != '0.server']
        index = jobqueue.loadJobIndex('grid')
        got = sorted(index.jobSettings)
        assert got == sorted(after) or code == 7 and got == before, 'index after crash at step %d of %s has %s, was %s' % (point, op, got, before)
        t.nontrivial(code == 7)
        t.label('crashed', code == 7)
        jobqueue.addJobIndex('grid', job(99))
        equal(sorted(jobqueue.loadJobIndex('grid').jobSettings), sorted(got + ['99.server']), 'index after recovery')


# ------------------------------------------------------------------ submitting parts of a grid

@st.composite
def batch_cases(draw):
    s = draw(specs(small=True))
    a = {}
    mode = draw(st.sampled_from(['chains', 'chains', 'minimize', 'importance', 'importance', 'importance_minimize']))
    flags = ['notexist', 'not_queued', 'chain_exists']
    if mode in ('chains',):
        flags += ['checkpoint', 'notall']
    if mode == 'importance':
        flags += ['ready', 'changed', 'parent_stopped', 'notall']
    flags += ['dryrun', 'converge'] + (['minimize_failed'] if 'minimize' in mode else []) + (['parent_converge'] if 'importance' in mode else [])
    for f in flags:
        if draw(st.integers(0, 3 if f not in ('converge', 'dryrun') else 6)) == 0 or f == 'not_queued' and mode == 'importance_minimize':
            a[f] = True
    per = draw(st.sampled_from([1, 1, 2, 3]))
    states = draw(st.lists(st.tuples(st.integers(0, 3), st.sampled_from([0, 100, 1000, 5000]), st.sampled_from([None, '0.5', '0.02\nDone', '0.05']), st.booleans(),
                                     st.booleans(), st.booleans()), min_size=8, max_size=8))
    return dict(s=s, mode=mode, a=a, per=per, states=states, combine=draw(st.integers(0, 4)) == 0, minR=draw(st.sampled_from([None, 0.1])))


@case(batch_cases(), quick=400, thorough=3500, shards=6)
def submit_grid(c, t):
    """runbatch submits exactly the jobs that match the requested state, each once, with the right ini file."""
    s, mode, a = c['s'], c['mode'], c['a']
    base = t.dir()
    p = prepare(s, base, REPO)
    with cluster(os.path.join(base, 'cl')) as q, imports():
        sys.path.insert(0, p['sett'])
        from paramgrid import gridconfig
        batch = quiet(gridconfig.makeGrid, p['grid'], p['module'])
        write('tmpl', TEMPLATE % '##DEFAULT_coresPerNode: 24 ##\n##DEFAULT_chainsPerNode: 2 ##\n##DEFAULT_nodes: 1##\n')
        now = time.time()
        st_ = {}
        items = list(batch.items(wantImportance=True))
        for i, x in enumerate(items):
            nch, age, conv, chk, minimum, inq = c['states'][(i * 3 + len(x.name)) % len(c['states'])]
            if x.isImportanceJob and not st_.get(x.parent.name, {'n': 0})['n']:
                nch = 0
            st_[x.name] = dict(n=nch, age=age, conv=conv, chk=chk, min=minimum, inq=inq)
            for k in range(nch):
                f = write('%s_%d.txt' % (x.chainRoot, k + 1), '1 2 3\n')
                os.utime(f, (now - age - k, now - age - k))
            if conv:
                write(x.chainRoot + '.converge_stat', conv)
            if chk:
                write(x.chainRoot + '_1.chk', 'c')
            if minimum:
                st_[x.name]['bad'] = (i + age // 100) % 2
                write(x.chainRoot + '.minimum', '-log(Like) = %s\nchi-sq = 2\n\n1 1 a \\alpha\n' % ('0.1000000E+31' if st_[x.name]['bad'] else '1'))
            R = st_[x.name]['R'] = [None, 0.005, 0.05][(i + nch + age) % 3]
            if R:
                os.makedirs(x.distPath, exist_ok=True)
                write(x.distRoot + '.converge', '\nvar(mean)/mean(var) for eigenvalues of covariance of y of orthonormalized parameters\n  1      0.00100\n  2      %.5f\n\nlast' % R)
        variant = '_minimize' if 'minimize' in mode else ''
        inq = [x for x in items if st_[x.name]['inq']]
        for x in inq:
            quiet(jobqueue.submitJob, x.name + variant, [x.iniFile(variant)], job_template='tmpl', batchPath=p['grid'])
        write(os.path.join(q, 'subs'), '')
        in_index = list(jobqueue.loadJobIndex(p['grid']).jobSettings) if inq else []
        done = lambda n: bool(st_[n]['conv']) and 'Done' in st_[n]['conv']
        stopped = lambda n: st_[n]['n'] > 0 and st_[n]['age'] > 300
        expect = []
        for x in items:
            z = st_[x.name]
            imp = x.isImportanceJob
            if mode.startswith('importance') != imp or hasattr(x, 'importanceFilter'):
                continue
            if 'notexist' in a and (z['min'] if variant else z['n'] > 0):
                continue
            if 'notall' in a and not variant and z['n'] >= 2:
                continue
            if variant and imp and not x.want_minimize:
                continue
            if 'minimize_failed' in a and z['min'] and not z['bad']:
                continue
            if 'parent_converge' in a and imp and not (st_[x.parent.name]['R'] or 1) <= 0.02:
                continue
            if 'converge' in a and (z['R'] or 0) <= 0.02:
                continue
            if 'checkpoint' in a:
                if z['conv'] is None or not z['chk'] or done(x.name) or not float(z['conv'].split('\n')[0]) > (c['minR'] or 0) or not stopped(x.name):
                    continue
            if imp and not variant:
                par = st_[x.parent.name]
                if 'ready' in a:
                    # parent finished
                    if not done(x.parent.name):
                        continue
                elif par['n'] == 0:
                    continue
                if 'changed' in a:
                    if par['n'] == 0:
                        raise Discard()
                    if z['n'] > 0 and not z['age'] > par['age']:
                        continue
                if 'parent_stopped' in a and not stopped(x.parent.name):
                    continue
            if 'chain_exists' in a and z['n'] == 0:
                continue
            if 'not_queued' in a and z['inq']:
                continue
            expect.append(x.iniFile(variant)[:-4])
        argv = [p['grid'], '--job_template', 'tmpl', '--runsPerJob', str(c['per'])]
        names = {'ready': 'importance_ready', 'changed': 'importance_changed'}
        for k in a:
            if k == 'checkpoint':
                argv += ['--checkpoint_run'] + ([str(c['minR'])] if c['minR'] else [])
            elif k in ('converge', 'parent_converge'):
                argv += ['--' + k, '0.02']
            elif k == 'notall':
                argv += ['--notall', '2']
            else:
                argv += ['--' + names.get(k, k)]
        if mode == 'importance' and not ('ready' in a or 'changed' in a):
            argv += ['--importance']
        elif mode in ('minimize', 'importance_minimize'):
            argv += ['--' + mode]
        if c['combine']:
            argv += ['--combineOneJobName', 'onejob']
        out = run_script('runbatch.py', argv)
        equal([line.split('...')[1].strip() for line in out.splitlines() if line.startswith('... ' if 'dryrun' in a else 'Submitting...')], expect, 'runs said to be submitted by %s' % ' '.join(argv[5:]))
        subs = [x.split() for x in read(os.path.join(q, 'subs')).splitlines()]
        index = jobqueue.loadJobIndex(p['grid'])
        t.nontrivial(0 < len(expect) < len(items))
        t.label(mode)
        if 'dryrun' in a:
            equal(subs, [], 'jobs submitted in a dry run')
            equal(sorted(index.jobSettings) if index else [], sorted(in_index), 'job index after a dry run')
            return
        got = [index.jobSettings['%s.server' % x[0]].paramFiles for x in subs]
        flat = sum(got, [])
        equal(flat, expect, 'submitted by %s' % ' '.join(argv[5:]))
        per = len(expect) if c['combine'] else c['per']
        equal([len(x) for x in got], [min(per, len(expect) - i) for i in range(0, len(expect), max(per, 1))], 'runs per job')
        for x in subs:
            equal(x[1], './scripts/' + index.jobSettings['%s.server' % x[0]].jobName + '_subscript', 'submitted script')
            text = read(x[1])
            for ini in index.jobSettings['%s.server' % x[0]].paramFiles:
                assert ini + '.ini ' in text, 'script does not run %s' % ini
        equal(len(set(x[1] for x in subs)), len(subs), 'number of different job scripts')


@case(st.tuples(specs(small=True), st.lists(st.tuples(st.sampled_from(['r', 'Q', 'r', 'Q', 'gone', 'none']), st.sampled_from(['', '', '_minimize']), st.integers(0, 3), st.sampled_from([None, '0.25', '12.3456\nDone', '0.0104'])), min_size=6, max_size=6),
                st.sampled_from(['range', 'min', 'ids', 'all', 'data', 'range']), st.integers(0, 7), st.integers(0, 7), st.sampled_from(['', '--queued', '--running']), st.booleans(),
                st.sampled_from([[], [], ['--data', 'plik'], ['--noimportance'], ['--importance'], ['--param', 'mnu', 'r']])), quick=200, thorough=3000, shards=3)
def manage_grid(c, t):
    """The listing and deletion scripts act on the jobs asked for and on no others."""
    s, states, how, i, k, only, confirm, sel = c
    base = t.dir()
    p = prepare(s, base, REPO)
    with cluster(os.path.join(base, 'cl')) as q, imports():
        sys.path.insert(0, p['sett'])
        from paramgrid import gridconfig
        batch = quiet(gridconfig.makeGrid, p['grid'], p['module'])
        write('tmpl', TEMPLATE % '##DEFAULT_coresPerNode: 24 ##\n##DEFAULT_chainsPerNode: 2 ##\n##DEFAULT_nodes: 1##\n')
        items = list(batch.items(wantImportance=True))
        jobs, state, R, done = {}, {}, {}, set()
        for j, x in enumerate(items):
            z, variant, extra, conv = states[(j + len(x.name)) % len(states)]
            if conv:
                write(x.chainRoot + '.converge_stat', conv)
                R[x.name] = '%6.3f' % float(conv.split('\n')[0])
            if z == 'none' or x.name in done:
                continue
            # several runs in one job, sometimes
            group = [x] + ([y for y in items[j + 1:j + extra] if y.name not in done] if not variant else [])
            done.update(y.name for y in group)
            n = int(read(os.path.join(q, 'count')))
            quiet(jobqueue.submitJob, x.name + variant if len(group) == 1 else 'several%d' % n, [y.iniFile(variant) for y in group], job_template='tmpl', batchPath=p['grid'])
            jobs[n] = [(y, variant) for y in group]
            if z != 'gone':
                state[n] = z
        set_queue(q, state)
        want = lambda y: (not sel or sel == ['--noimportance'] and not y.isImportanceJob or sel == ['--importance'] and y.isImportanceJob or sel[0] == '--data' and 'plik' in y.data_set.names
                          or sel[0] == '--param' and bool({'mnu', 'r'} & set(y.param_set)))
        chosen = [n for n in sorted(jobs) if any(want(y) for y, _ in jobs[n])]
        out = run_script('runningJobs.py', [p['grid']] + sel + ([only] if only else []))
        listed = [n for n in sorted(state) if not only or (only == '--running') == (state[n] == 'r')]
        lines, exp = [], []
        for line in out.splitlines():
            if '|' in line:
                lines.append([line.split()[0], line.split('|')[1][1:]])
            elif '>>' in line:
                lines.append(line.strip())
        for n in listed:
            if n in chosen:
                names = [y.name + v for y, v in jobs[n]]
                job = names[0] if len(names) == 1 else 'several%d' % n
                shown = {y.name: R.get(y.name, ' ' * 6) for y, v in jobs[n] if want(y)}
                exp.append(['%d.server' % n, '%s %s' % (shown.get(job, ' ' * 6), job)])
                if len(names) > 1:
                    exp += ['>>  %s %s' % (shown.get(y, ' ' * 6), y) for y in names]
        equal(lines, exp, 'jobs listed by runningJobs %s %s' % (only, ' '.join(sel)))
        if not jobs:
            return
        nums = sorted(jobs)
        lo, hi = sorted([nums[i % len(nums)], nums[k % len(nums)]])
        argv = [p['grid']] + ([only] if only else []) + (['--confirm'] if confirm else [])
        if how == 'range':
            argv += ['--delete_id_range', str(lo), str(hi)]
            targets = [n for n in nums if lo <= n <= hi]
        elif how == 'min':
            argv += ['--delete_id_min', str(lo)]
            targets = [n for n in nums if lo <= n]
        elif how == 'ids':
            argv += ['--delete_ids', str(lo), str(hi)]
            targets = [n for n in nums if n in (lo, hi)]
        elif how == 'data':
            argv += sel
            targets = chosen
        else:
            targets = nums
        out = run_script('deleteJobs.py', argv)
        active = [n for n in targets if n in listed]
        equal(sorted(deleted(q)), ['%d.server' % n for n in active] if confirm else [], 'jobs cancelled by deleteJobs %s (queue %s)' % (' '.join(argv[1:]), state))
        equal(sorted(line.split()[-1] for line in out.splitlines() if line.startswith('Cancelling: ' if confirm else '... ')), sorted('%d.server' % n for n in active), 'jobs named by deleteJobs')
        equal('not actually deleted' in out, not confirm, 'said not to delete')
        left = [n for n in nums if not confirm or n not in (active if only else targets)]
        equal(sorted(jobqueue.loadJobIndex(p['grid']).jobSettings), sorted('%d.server' % n for n in left), 'jobs left in the index')
        t.nontrivial(0 < len(active) < len(state))
        # by number, without a grid
        if how in ('range', 'ids'):
            before = len(deleted(q))
            run_script('deleteJobs.py', argv[-3:])
            equal(deleted(q)[before:], [str(n) for n in (range(lo, hi + 1) if how == 'range' else (lo, hi))], 'jobs cancelled without a grid')
