import os
import sys
import runpy
import io
import contextlib
import numpy as np
from hypothesis import strategies as st
from vlib import case, write, equal, close
from gen import param_names, nice_floats
from getdist.covmat import CovMat

RULE = ('positive-definite matrices of 1-6 named parameters with widely different scales, merge/rescale/save/load '
        'histories over an entry-wise model; non-trivial: >=2 parameters and a merge with partial overlap or a rescale')
ASSUMPTIONS = ['parameter names are unique within one covariance; rescale factors are non-zero']

POOL = ['a', 'b', 'c', 'dd', 'e_1', 'w', 'wa', 'logA']


@st.composite
def covs(draw):
    names = draw(st.lists(st.sampled_from(POOL), min_size=1, max_size=5, unique=True))
    n = len(names)
    L = [[draw(st.floats(-2, 2)) for _ in range(i)] + [draw(st.floats(0.1, 2))] for i in range(n)]
    scale = [draw(st.integers(-6, 6)) for _ in range(n)]
    return dict(names=names, L=L, scale=scale)


def matrix(c):
    n = len(c['names'])
    L = np.zeros((n, n))
    for i in range(n):
        L[i, :i + 1] = c['L'][i]
    s = 10. ** np.array(c['scale'])
    m = L.dot(L.T) * np.outer(s, s)
    return (m + m.T) / 2


def entries(names, m):
    return {(p, q): m[i, j] for i, p in enumerate(names) for j, q in enumerate(names)}


def compare(cov, names, ent, note, rtol=1e-12):
    equal(list(cov.paramNames), names, 'names ' + note)
    m = np.asarray(cov.matrix)
    exp = np.array([[ent.get((p, q), 0.) for q in names] for p in names]).reshape(len(names), len(names))
    close(m, exp, rtol=rtol, what='covariance ' + note)
    sd = np.sqrt(np.diag(exp))
    close(cov.correlation(), exp / np.outer(sd, sd), rtol=max(rtol * 4, 1e-11), atol=1e-14, what='correlation ' + note)
    close(np.asarray(cov.matrix), exp, rtol=rtol, what='covariance unchanged by correlation ' + note)


ops = st.lists(st.one_of(
    st.tuples(st.just('merge'), covs()),
    st.tuples(st.just('rescale'), st.sampled_from(POOL), st.one_of(st.floats(0.01, 100), st.floats(-5, -0.01))),
    st.tuples(st.just('reload')),
), max_size=6)


@case(st.tuples(covs(), ops), quick=1200)
def history(case, t):
    c, hist = case
    names = list(c['names'])
    m = matrix(c)
    ent = entries(names, m)
    cov = CovMat(matrix=m.copy(), paramNames=list(names))
    compare(cov, names, ent, 'constructed')
    f = os.path.join(t.dir(), 'x.covmat')
    t.nontrivial(len(names) > 1 and any(o[0] != 'reload' for o in hist))
    tol = 1e-12
    for op in hist:
        if op[0] == 'merge':
            m2 = matrix(op[1])
            n2 = list(op[1]['names'])
            other = CovMat(matrix=m2.copy(), paramNames=list(n2))
            old, old_names = cov, list(names)
            old_ent = dict(ent)
            cov = cov.mergeCovmatWhereNew(other)
            for k, v in entries(n2, m2).items():
                if not (k[0] in names and k[1] in names):
                    ent[k] = v
            names = names + [n for n in n2 if n not in names]
            compare(old, old_names, old_ent, 'merged from', tol)
            compare(other, n2, entries(n2, m2), 'merged in', tol)
            t.label('overlap', set(old_names) & set(n2))
        elif op[0] == 'rescale':
            cov.rescaleParameter(op[1], op[2])
            for k in ent:
                ent[k] *= op[2] ** (k.count(op[1]))
        else:
            cov.saveToFile(f)
            cov = CovMat(f)
            tol += 0.6e-7
        compare(cov, names, ent, 'after ' + op[0], tol)


def run_script(name, args):
    """run an installed command-line tool in this process"""
    argv = sys.argv
    sys.argv = [name] + args
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            runpy.run_module('getdist.' + name, run_name='__main__')
    finally:
        sys.argv = argv


@case(st.lists(covs(), min_size=1, max_size=4), quick=200)
def combine_tool(cs, t):
    d = t.dir()
    files = []
    ent, names = {}, []
    for i, c in enumerate(cs):
        m = matrix(c)
        f = os.path.join(d, 'in%d.covmat' % i)
        CovMat(matrix=m, paramNames=list(c['names'])).saveToFile(f)
        files.append(f)
        for k, v in entries(c['names'], m).items():
            if not (k[0] in names and k[1] in names):
                ent[k] = v
        names += [n for n in c['names'] if n not in names]
    t.nontrivial(len(cs) > 1)
    run_script('covcomb', [os.path.join(d, 'out.covmat')] + files)
    compare(CovMat(os.path.join(d, 'out.covmat')), names, ent, 'combined', 2e-7)


@case(st.tuples(st.lists(covs(), min_size=1, max_size=3),
                st.lists(st.tuples(st.sampled_from(POOL), st.floats(0.01, 100)), min_size=1, max_size=3,
                         unique_by=lambda x: x[0])), quick=200)
def rescale_tool(case, t):
    cs, scales = case
    d = t.dir()
    ind, outd = os.path.join(d, 'in'), os.path.join(d, 'out')
    os.makedirs(ind)
    for i, c in enumerate(cs):
        CovMat(matrix=matrix(c), paramNames=list(c['names'])).saveToFile(os.path.join(ind, 'm%d.covmat' % i))
    write(os.path.join(ind, 'notes.txt'), 'x')
    t.nontrivial(any(s[0] in c['names'] for s in scales for c in cs))
    run_script('covscale', [ind, outd, ':'.join(s[0] for s in scales), ':'.join(repr(s[1]) for s in scales)])
    equal(sorted(os.listdir(outd)), ['m%d.covmat' % i for i in range(len(cs))], 'output files')
    for i, c in enumerate(cs):
        fac = np.array([dict(scales).get(n, 1.) for n in c['names']])
        compare(CovMat(os.path.join(outd, 'm%d.covmat' % i)), c['names'],
                entries(c['names'], matrix(c) * np.outer(fac, fac)), 'rescaled', 2e-7)
        compare(CovMat(os.path.join(ind, 'm%d.covmat' % i)), c['names'], entries(c['names'], matrix(c)), 'input', 1e-7)
