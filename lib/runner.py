"""Runs one property check: generated cases -> oracle -> shrunk replay + evidence.

exit 0: held on everything explored; exit 1: VIOLATION line printed; exit 2: error of the machinery.
"""
import os
import sys
import time
import json
import errno
import shutil
import signal
import argparse
import tempfile
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
# hypothesis is only in the tooling venv; appended last so that numpy, scipy, ... stay those of the project's venv
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

MAX_SHRINK_S = 40
HANG_S = 60  # processor seconds a single evaluation may take (the slowest take a few)


def _hang(sig, frame):
    raise AssertionError('the code did not finish within %d s of processor time' % HANG_S)



def classify_error(e):
    """'harness' for errors that say nothing about the property."""
    import vlib
    if isinstance(e, (vlib.HarnessError, MemoryError, KeyboardInterrupt)):
        return 'harness'
    if isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EAGAIN):
        return 'harness'
    return 'violation'


def run_one(func, data, scratch):
    """Run a case once; returns (ctx, error or None)."""
    import random
    import numpy as np
    import vlib
    np.random.seed(12345)
    random.seed(12345)
    t = vlib.Ctx(scratch)
    cwd = os.getcwd()
    env = dict(os.environ)
    err = None
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, HANG_S, 5)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                func(data, t)
    except vlib.Discard:
        t.label('discarded')
        t.is_nontrivial = False
    except SystemExit as e:
        err = AssertionError('the code called sys.exit(%r)' % (e.code,)).with_traceback(e.__traceback__)
    except Exception as e:
        err = e
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
        if dict(os.environ) != env:
            os.environ.clear()
            os.environ.update(env)
        t.cleanup()
    return t, err


def job_main(case, seed, n, budget, scratch, outfile):
    """In a forked child: run one registered case under hypothesis and write its result."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    import vlib
    engine.MAX_SHRINKING_SECONDS = MAX_SHRINK_S
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    res = dict(name=case.name, evaluations=0, nontrivial=[], labels={}, samples=[], skipped=0, discarded=0,
               failure=None, error=None)
    start = time.time()
    last = {}
    seen = set()

    def body(data):
        if time.time() - start > budget and not last:
            res['skipped'] += 1
            return
        # normalise through JSON so a replay sees exactly what was run
        data = json.loads(json.dumps(data))
        t, err = run_one(case.func, data, scratch)
        if not last:
            res['evaluations'] += 1
            for lab in set(t.labels):
                res['labels'][lab] = res['labels'].get(lab, 0) + 1
            if 'discarded' in t.labels:
                res['discarded'] += 1
            if t.is_nontrivial:
                d = vlib.digest(data)
                if d not in seen:
                    seen.add(d)
                    if len(res['samples']) < 2 and len(json.dumps(data)) < 1500 and len(seen) > 3:
                        res['samples'].append(data)
        if err is not None:
            if classify_error(err) == 'harness':
                raise err
            last['data'] = data
            last['msg'] = '%s: %s' % (type(err).__name__, err)
            last['tb'] = ''.join(traceback.format_exception(type(err), err, err.__traceback__))
            raise err

    f = given(case.strategy)(body)
    f = settings(max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
                 print_blob=False, suppress_health_check=list(HealthCheck),
                 phases=[Phase.generate, Phase.target, Phase.shrink])(f)
    f = hypothesis.seed(seed)(f)
    try:
        f()
    except BaseException as e:
        if last:
            # confirm outside hypothesis
            t, err = run_one(case.func, last['data'], scratch)
            if err is not None and classify_error(err) == 'violation':
                res['failure'] = dict(data=last['data'], message=last['msg'], traceback=last['tb'])
            else:
                res['error'] = 'failure did not reproduce on replay: ' + last['msg']
        else:
            res['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))
    res['nontrivial'] = sorted(seen)
    res['wall'] = time.time() - start
    with open(outfile + '.tmp', 'w') as fh:
        json.dump(res, fh)
    os.replace(outfile + '.tmp', outfile)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('id')
    p.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    p.add_argument('--replay')
    p.add_argument('--only')
    p.add_argument('--scale', type=float, default=1.)
    p.add_argument('--procs', type=int, default=8)
    p.add_argument('-v', action='store_true')
    args = p.parse_args()
    t0 = time.time()
    seed0 = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = tempfile.mkdtemp(prefix='verif_%s_' % args.id)
    rc = 2
    try:
        for sub, var in (('tmp', 'TMPDIR'), ('cache', 'XDG_CACHE_HOME'), ('mpl', 'MPLCONFIGDIR'), ('home', 'HOME')):
            d = os.path.join(work, sub)
            os.makedirs(d)
            os.environ[var] = d
        tempfile.tempdir = None
        rc = run(args, seed0, work, t0)
    except SystemExit as e:
        rc = e.code
    except BaseException:
        traceback.print_exc()
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def load_check(pid):
    import importlib.util
    path = os.path.join(VERIF, 'checks', pid.lower() + '.py')
    spec = importlib.util.spec_from_file_location('check_' + pid, path)
    mod = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(VERIF, 'checks'))
    spec.loader.exec_module(mod)
    return mod


def known_findings(pid):
    res = {}
    fname = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fname):
        for line in open(fname):
            line = line.strip()
            if line.startswith('finding:') and 'property=%s ' % pid in line:
                key = line.split('key=')[1].split()[0]
                res[key] = line.split('key=')[1].split(None, 1)[1]
    return res


def run(args, seed0, work, t0):
    import vlib
    warnings.simplefilter('ignore')
    mod = load_check(args.id)
    import getdist
    if not os.path.realpath(getdist.__file__).startswith('/repo/'):
        raise vlib.HarnessError('getdist not imported from /repo')
    cases = [c for c in vlib.CASES if not args.only or c.name in args.only.split(',')]
    if args.replay:
        rep = json.load(open(args.replay))
        c = [c for c in vlib.CASES if c.name == rep['case']][0]
        scratch = os.path.join(work, 'replay')
        os.makedirs(scratch)
        os.chdir(scratch)
        t, err = run_one(c.func, rep['data'], scratch)
        if err is None:
            print('replay passes')
            return 0
        traceback.print_exception(type(err), err, err.__traceback__)
        if classify_error(err) == 'harness':
            return 2
        print('VIOLATION property=%s replay=%s' % (args.id, os.path.abspath(args.replay)))
        return 1

    jobs = []
    thorough = args.tier == 'thorough'
    for c in cases:
        n = max(1, int((c.thorough if thorough else c.quick) * args.scale))
        shards = max(c.shards, 4) if thorough else c.shards
        for k in range(shards):
            s = (seed0 * 1000003 + int(vlib.digest([c.name, k]), 16)) % (2 ** 63)
            jobs.append((c, s, max(1, n // shards), k))
    # longest first is unknown; interleave as given
    budget = (6 * 3600 if thorough else 420)
    hard = (7 * 3600 if thorough else 780)
    pending = list(enumerate(jobs))
    running = {}
    results = []
    errors = []
    failed = False
    while pending or running:
        while pending and len(running) < args.procs and not failed:
            i, (c, s, n, k) = pending.pop(0)
            out = os.path.join(work, 'res%d.json' % i)
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    job_main(c, s, n, budget - (time.time() - t0), os.path.join(work, 'job%d' % i), out)
                except BaseException:
                    traceback.print_exc()
                    os._exit(3)
                os._exit(0)
            running[pid] = (i, c, out)
        if failed:
            pending = []
            # a violation was found: give the others a moment, then stop them
            if failed is True:
                failed = time.time()
            if time.time() - failed > 45:
                for pid in list(running):
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        pass
        if time.time() - t0 > hard:
            for pid in list(running):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
        try:
            pid, status = os.waitpid(-1, os.WNOHANG)
        except ChildProcessError:
            break
        if pid == 0:
            time.sleep(0.02)
            continue
        if pid not in running:
            continue
        i, c, out = running.pop(pid)
        if os.path.exists(out):
            r = json.load(open(out))
            results.append(r)
            if r['failure'] and not failed:
                failed = True
            if r['error']:
                errors.append('%s: %s' % (c.name, r['error']))
        elif not failed:
            errors.append('%s: worker died with status %s' % (c.name, status))
        shutil.rmtree(os.path.join(work, 'job%d' % i), ignore_errors=True)

    failures = [r for r in results if r['failure']]
    known = known_findings(args.id)
    probe_fail = []
    findings_seen = []
    scratch = os.path.join(work, 'probe')
    os.makedirs(scratch, exist_ok=True)
    for key, func in ([] if args.only else vlib.FINDINGS):
        cwd = os.getcwd()
        so = os.dup(1)
        dn = os.open(os.devnull, os.O_RDWR)
        sys.stdout.flush()
        os.dup2(dn, 1)
        try:
            t, err = run_one(lambda data, t: func(t), None, scratch)
        finally:
            sys.stdout.flush()
            os.dup2(so, 1)
            os.close(so)
            os.close(dn)
            os.chdir(cwd)
        if err is not None:
            if classify_error(err) == 'harness':
                errors.append('probe %s: %s' % (key, err))
            elif key in known:
                findings_seen.append(key)
                print('KNOWN-FINDING: property=%s key=%s %s' % (args.id, key, known[key]))
            else:
                probe_fail.append((key, err))

    evals = sum(r['evaluations'] for r in results)
    per_case = {}
    for r in results:
        e = per_case.setdefault(r['name'], dict(evaluations=0, nontrivial=set(), labels={}, wall_s=0., discarded=0,
                                                skipped_over_budget=0))
        e['evaluations'] += r['evaluations']
        e['discarded'] += r['discarded']
        e['skipped_over_budget'] += r['skipped']
        e['nontrivial'].update(r['nontrivial'])
        e['wall_s'] = round(e['wall_s'] + r['wall'], 2)
        for k, v in r['labels'].items():
            e['labels'][k] = e['labels'].get(k, 0) + v
    nontriv = 0
    for e in per_case.values():
        e['nontrivial'] = len(e['nontrivial'])
        nontriv += e['nontrivial']
    samples = []
    for r in results:
        for s in r['samples'][:1]:
            samples.append(dict(case=r['name'], data=s))
    nviol = len(failures) + len(probe_fail)
    ev = dict(property=args.id, tier=args.tier, seed=seed0, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=nontriv, rule=mod.RULE, samples=samples[:40],
                            per_case=per_case, known_findings_seen=findings_seen),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=nviol)
    if not args.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        fname = os.path.join(VERIF, 'evidence', args.id + '.json')
        with open(fname + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(fname + '.tmp', fname)
    if args.v:
        for name, e in per_case.items():
            print('%-40s %s' % (name, json.dumps(e)))
    for e in errors:
        print('ERROR ' + e, file=sys.stderr)
    if nviol:
        rdir = os.path.join(VERIF, 'replays')
        os.makedirs(rdir, exist_ok=True)
        for r in failures:
            f = r['failure']
            path = os.path.join(rdir, '%s-%s-%s.json' % (args.id, r['name'], vlib.digest(f['data'])))
            with open(path, 'w') as fh:
                json.dump(dict(property=args.id, case=r['name'], data=f['data'], message=f['message'],
                               traceback=f['traceback'],
                               how='./check %s quick --replay %s' % (args.id, path)), fh, indent=1)
            print('%s: %s' % (r['name'], f['message'][:1500]))
            if args.v:
                print(f['traceback'])
                print(json.dumps(f['data'])[:1500])
            print('VIOLATION property=%s replay=%s' % (args.id, path))
        for key, err in probe_fail:
            path = os.path.join(rdir, '%s-probe-%s.json' % (args.id, key))
            with open(path, 'w') as fh:
                json.dump(dict(property=args.id, probe=key, message=str(err)), fh)
            print('probe %s: %s' % (key, str(err)[:1500]))
            print('VIOLATION property=%s replay=%s' % (args.id, path))
        return 1
    if errors:
        return 2
    print('OK property=%s tier=%s seed=%d evaluations=%d nontrivial=%d wall=%.1fs'
          % (args.id, args.tier, seed0, evals, nontriv, time.time() - t0))
    return 0


if __name__ == '__main__':
    main()
