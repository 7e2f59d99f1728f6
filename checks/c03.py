import os
import numpy as np
from hypothesis import strategies as st
from vlib import case, write, equal, close
from gen import param_names, nice_floats, name_list
from getdist.parampriors import ParamBounds
from getdist import MCSamples

RULE = ('histories of range assignments (numbers, text, N, None, infinities, fixed values) and files in every accepted '
        'layout; non-trivial: at least one one-sided or fixed parameter together with another parameter')
ASSUMPTIONS = ['a limit already set is only ever replaced by another finite value (what an unlimited update of an '
               'existing limit means is not documented)', 'files written by hand have three columns per parameter']

lims = st.one_of(nice_floats(), st.sampled_from(['N', 'none', 'inf', 0.0, 1.0]))


@st.composite
def histories(draw):
    names = draw(name_list(1, 5))
    ops = []
    for _ in range(draw(st.integers(0, 8))):
        n = draw(st.sampled_from(names))
        if draw(st.integers(0, 4)) == 0:
            ops.append(['fix', n, draw(nice_floats())])
        else:
            lo, hi = draw(lims), draw(lims)
            if draw(st.integers(0, 5)) == 0 and isinstance(lo, float):
                hi = lo
            ops.append(['range', n, lo, hi, draw(st.sampled_from(['native', 'text']))])
    return ops


def arg(x, side, how):
    if x == 'inf':
        return -np.inf if side == 0 else np.inf
    if x == 'none':
        return None
    if x == 'N':
        return 'N'
    return repr(x) if how == 'text' else x


def apply(ops, b):
    lower, upper, names = {}, {}, []
    for op in ops:
        n = op[1]
        if n not in names:
            names.append(n)
        if op[0] == 'fix':
            b.setFixed(n, op[2])
            lower[n] = upper[n] = op[2]
        else:
            lo, hi = op[2:4]
            # do not use updates whose meaning is undocumented
            if n in lower and isinstance(lo, str):
                lo = lower[n]
            if n in upper and isinstance(hi, str):
                hi = upper[n]
            b.setRange(n, [arg(lo, 0, op[4]), arg(hi, 1, op[4])])
            if not isinstance(lo, str):
                lower[n] = lo
            if not isinstance(hi, str):
                upper[n] = hi
    return names, lower, upper


def compare(b, names, lower, upper, rtol, note):
    equal(list(b.names), names, 'names ' + note)
    for n in names + ['notthere']:
        for got, exp, what in ((b.getLower(n), lower.get(n), 'lower'), (b.getUpper(n), upper.get(n), 'upper')):
            if exp is None:
                assert got is None, '%s limit of %s is %r, expected none (%s)' % (what, n, got, note)
            else:
                close(got, exp, rtol=rtol, what='%s limit of %s' % (what, n), note=note)
    fixed = {}
    for n in names:
        lo, hi = b.getLower(n), b.getUpper(n)
        f = b.fixedValue(n)
        if lo is not None and lo == hi:
            assert f == lo, 'fixed value'
            fixed[n] = lo
        else:
            assert f is None, '%s reported fixed' % n
    equal(b.fixedValueDict(), fixed, 'fixed values')
    for n in names:
        lo, hi = lower.get(n), upper.get(n)
        if lo is not None and lo == hi:
            assert n in fixed, 'fixed parameter %s not reported' % n
    assert b.fixedValue('notthere') is None


@case(histories(), quick=2000)
def updates_and_files(ops, t):
    b = ParamBounds()
    names, lower, upper = apply(ops, b)
    t.nontrivial(len(names) > 1 and any((n in lower) != (n in upper) or (n in lower and lower[n] == upper[n])
                                        for n in names))
    compare(b, names, lower, upper, 1e-14, 'after updates')
    d = t.dir()
    for ext in ('.ranges', '.bounds'):
        f = os.path.join(d, 'x' + ext)
        b.saveToFile(f)
        compare(ParamBounds(f), names, lower, upper, 0.51e-7, 'after save and load')
        # saving again is stable
        g = os.path.join(d, 'y' + ext)
        ParamBounds(f).saveToFile(g)
        compare(ParamBounds(g), names, lower, upper, 0.52e-7, 'after saving twice')
    for sep in (' ', '\t', '   '):
        f = os.path.join(d, 'h.ranges')
        write(f, '\n'.join(sep.join([n] + [repr(x[n]) if n in x else 'N' for x in (lower, upper)]) for n in names) + '\n\n')
        compare(ParamBounds(f), names, lower, upper, 1e-14, 'hand-written file')


@case(histories(), quick=800)
def samples_ranges(ops, t):
    """ranges given to a set of samples (as list, dictionary, table or file beside the chain) are the ones it reports"""
    b = ParamBounds()
    names, lower, upper = apply(ops, b)
    if not names:
        return
    rng = np.random.RandomState(1)
    samps = rng.uniform(size=(40, len(names)))
    t.nontrivial(len(names) > 1 and any((n in lower) != (n in upper) for n in names))
    pairs = {n: [lower.get(n), upper.get(n)] for n in names}
    # a dictionary gives [min,max] values for specific parameter names only
    part = names[::2]
    for ranges, which in ((pairs, names), (b, names), ([pairs[n] for n in names], names),
                          ({n: pairs[n] for n in part}, part)):
        s = MCSamples(samples=samps, names=names, ranges=ranges, settings={'ignore_rows': 0})
        for i, n in enumerate(names):
            for got, d in ((s.getLower(n), lower), (s.getUpper(n), upper)):
                exp = d.get(n) if n in which else None
                assert (got is None) == (exp is None) and (exp is None or got == exp), \
                    'limit of %s is %r, expected %r' % (n, got, exp)
