import decimal
import math
import re
import numpy as np
from decimal import Decimal
from hypothesis import strategies as st
from vlib import case, close, equal, raises, read
from gen import seeds, name_list
from getdist import types
from getdist.types import NumberFormatter, numberFigs
from getdist.paramnames import ParamInfo, ParamNames

RULE = ('values and errors over 60 decades incl. ties, carries, zero and negative values; statistics tables of 1-9 parameters in 1-4 columns, several results, '
        'missing parameters, best fits, shifts and titles; non-trivial: an exponent, a carry, an asymmetric or one-tail limit, or more than one result or column')
ASSUMPTIONS = ['positive finite errors', 'significant figures at least 1']

decimals = st.tuples(st.integers(-99999999, 99999999), st.integers(-20, 12)).map(lambda p: float('%de%d' % p))
carries = st.tuples(st.sampled_from(['9.995', '99.95', '0.09999', '9.5', '999.5', '1.0005', '0.0995', '99999.5', '0.00099999', '2.5', '1.25', '-9.96']),
                    st.integers(-12, 8)).map(lambda p: float('%se%d' % p))
values = st.one_of(decimals, carries, st.just(0.), st.integers(-10 ** 7, 10 ** 7).map(float))
positive = st.one_of(st.tuples(st.integers(1, 99999), st.integers(-14, 6)).map(lambda p: float('%de%d' % p)), carries.map(abs)).filter(lambda v: v > 0)


def rounded(d, sf):
    """d (Decimal) to sf significant figures, ties away from zero"""
    if d == 0:
        return d
    q = Decimal(1).scaleb(d.adjusted() - sf + 1)
    with decimal.localcontext() as ctx:
        ctx.prec = 1200
        return d.quantize(q, rounding=decimal.ROUND_HALF_UP)


def shown(s):
    assert re.fullmatch(r'[+-]?\d+(\.\d+)?', s), 'number printed as %r' % s
    return Decimal(s)


def places(s):
    return len(s.partition('.')[2])


@case(st.tuples(values, st.integers(1, 8), st.sampled_from(['float', 'float64', 'float32', 'int'])), quick=3000)
def significant_figures(c, t):
    v, sf, kind = c
    v = dict(float=float, float64=np.float64, float32=np.float32, int=int)[kind](v)
    exact = Decimal(v if kind == 'int' else float(v))
    s = numberFigs(v, sf)
    want = rounded(exact, sf)
    equal(shown(s), want, 'rounded value of %r to %d figures' % (v, sf))
    t.nontrivial(want.adjusted() != exact.adjusted() or v < 0)
    if v:
        digits = s.lstrip('+-').replace('.', '').lstrip('0')
        n = len(digits)
        shift = want.adjusted()
        assert n == max(sf, shift + 1), '%r shown with %d digits' % (s, n)
    # scientific form
    m, e = numberFigs(v, sf, sci=True)
    assert isinstance(e, int) and (e == 0 or abs(e) > 4), 'exponent %r' % e
    if v:
        assert (e != 0) == (abs(exact.adjusted()) > 4), 'exponent %d for %g' % (e, v)
        got = shown(m).scaleb(e)
        unit = Decimal(1).scaleb(exact.adjusted() - sf + 1)
        assert abs(got - exact) <= unit * Decimal('0.500001'), 'scientific form %s e%d of %r' % (m, e, v)
        if e:
            t.nontrivial()
            assert Decimal('0.999') < abs(shown(m)) < Decimal('10.01'), 'mantissa %s' % m
    f = NumberFormatter()
    equal(f.formatNumber(v, sf), s, 'formatNumber')
    equal(Decimal(f.formatNumber(v, sf, wantSign=True)), shown(s), 'signed number')
    if v > 0:
        assert f.formatNumber(v, sf, wantSign=True).startswith('+'), 'sign'
    equal(f.formatNumber(v), numberFigs(v, 4), 'default significant figures')


@case(st.tuples(values, positive, positive, st.booleans(), st.booleans(), st.booleans(), st.integers(1, 4)), quick=3000)
def value_and_errors(c, t):
    """value and errors share their decimal places, each within half a unit of the last place (or the value's significant figures)"""
    v, up, down, sym, sci, sign, err_sf = c
    if abs(v) > 1e10 * min(up, down) or max(up, down) > 1e4 * min(up, down):
        # decimal places of the errors beyond those of a double
        down = up = abs(v) * 1e-3 or up
    if sym:
        down = up
        lo = up if not sign else -up
    else:
        lo = -down
    f = NumberFormatter(err_sf=err_sf)
    out = f.namesigFigs(v, up, lo, wantSign=sign, sci=sci)
    e = out[3] if sci else 0
    res, plus, minus = out[:3]
    equal(len(out), 4 if sci else 3, 'parts')
    t.nontrivial(e != 0 or not sym)
    sc = Decimal(1).scaleb(e)
    fuzz = Decimal('1e-9')
    for s, x in ((plus, up), (minus, lo)):
        d = Decimal(x)
        got = shown(s) * sc
        # half a unit in the last of 1 or err_sf figures (ties may go either way in scientific form)
        ok = [k for k in (1, err_sf) if abs(got - d) <= Decimal('0.5000001') * Decimal(1).scaleb(d.adjusted() - k + 1)
              and rounded(shown(s), k) == shown(s)]
        assert ok, 'error %r printed as %s e%d' % (x, s, e)
        if sign:
            assert s[0] == ('-' if x < 0 else '+'), 'sign of error %r: %s' % (x, s)
    dp = places(res)
    # (one more where rounding to fewer figures would carry)
    assert places(plus) <= dp <= max(places(plus), places(minus)) + 1, '%s +- %s %s: decimal places' % (res, plus, minus)
    d = Decimal(v)
    err = abs(shown(res) * sc - d)
    half = Decimal('0.5') * Decimal(1).scaleb(-dp) * sc
    # integers may be rounded to the significant figures of the formatter, at least 2
    figs = Decimal('0.5') * Decimal(1).scaleb((d.adjusted() if d else 0) - (2 if 20 <= v < 100 else 3) + 1)
    assert err <= max(half, figs if dp == 0 else 0) * (1 + fuzz) + abs(d) * Decimal('1e-14'), 'value %r printed as %s e%d with errors %s %s' % (v, res, e, plus, minus)
    if dp:
        assert err <= half * (1 + fuzz) + abs(d) * Decimal('1e-14'), 'value'
    assert not re.fullmatch(r'-0(\.0*)?', res) or v < 0 and dp == 0 or err <= half, 'negative zero'


def power(tex):
    m = re.search(r'\\cdot 10\^\{(-?\d+)\}$', tex)
    if m:
        return tex[:m.start()], int(m.group(1))
    return tex, 0


def parse(tex):
    """-> kind, numbers as floats, unit of last place"""
    if tex == '---':
        return 'none', [], 0
    tex, e = power(tex)
    f = 10. ** e
    for sgn, kind in (('< ', 'upper'), ('> ', 'lower')):
        if tex.startswith(sgn):
            return kind, [float(tex[2:]) * f], 0
    if e:
        assert tex.startswith(r'\left(\,') and tex.endswith(r'\,\right)'), 'exponent applies to part of %r' % tex
        tex = tex[len(r'\left(\,'):-len(r'\,\right)')]
    m = re.fullmatch(r'(-?[\d.]+)\\pm ([\d.]+)', tex)
    if m:
        return 'pm', [float(g) * f for g in m.groups()], 10. ** -places(m.group(1)) * f
    m = re.fullmatch(r'(-?[\d.]+)\^\{([+-][\d.]+|0[\d.]*)\}_\{([+-][\d.]+|0[\d.]*)\}', tex)
    assert m, 'constraint printed as %r' % tex
    return 'asym', [float(g) * f for g in m.groups()], 10. ** -places(m.group(1)) * f


@st.composite
def stat_specs(draw, max_params=9):
    names = draw(name_list(1, max_params))
    return dict(names=names, seed=draw(seeds), contours=draw(st.sampled_from([[0.68, 0.95], [0.683, 0.954, 0.997], [0.9], [0.5, 0.999]])), bestfit=draw(st.booleans()),
                logs=[draw(st.integers(-12, 12)) for _ in names], kinds=[draw(st.sampled_from(['sym', 'asym', '>', '<', 'none'])) for _ in names],
                derived=[draw(st.booleans()) for _ in names])


def make_stats(c, seed=0, names=None, bestfit=None):
    r = np.random.RandomState((c['seed'] + seed) % 2 ** 31)
    m = types.MargeStats()
    m.limits = np.array(c['contours'])
    m.hasBestFit = c['bestfit'] if bestfit is None else bestfit
    for name, k, kind, der in zip(c['names'], c['logs'], c['kinds'], c['derived']):
        if names is not None and name not in names:
            continue
        p = ParamInfo(name=name, label='L_{' + name + '}', derived=der)
        sc = 10. ** k
        p.mean = r.normal() * sc * r.choice([1, 10, 300])
        p.err = abs(r.normal()) * sc + 1e-3 * sc
        p.best_fit = p.mean + r.normal() * p.err
        p.limits = []
        for i in range(len(c['contours'])):
            u, d = (i + 1) * p.err * (1 + 0.01 * r.uniform()), (i + 1) * p.err * (1.0 if kind == 'sym' else 1 + r.uniform(0.3, 0.8))
            p.limits.append(types.ParamLimit([p.mean - d, p.mean + u], dict(sym='two', asym='two').get(kind, kind)))
        m.names.append(p)
    return m


@case(st.tuples(stat_specs(), st.integers(1, 3)), quick=800)
def constraints(c, t):
    """latex constraint of each parameter says what the statistics are"""
    spec, limit = c
    m = make_stats(spec, bestfit=False)
    limit = min(limit, len(spec['contours']))
    form = types.NoLineTableFormatter()
    t.nontrivial()
    for par, kind in zip(m.names, spec['kinds']):
        tex = m.texValues(form, par, limit=limit)
        equal(tex, m.texValues(form, par.name, limit=limit), 'by name')
        equal(len(tex), 1, 'values')
        lim = par.limits[limit - 1]
        if par.name.startswith('chi2'):
            assert (r'\pm' in tex[0]) == (limit == 1) and (r'\nu' in tex[0]) == (limit > 1), 'chi2 shown as %s' % tex
            if limit > 1:
                dof = float(re.search(r'\\,([\d.]+)\}?\)', tex[0].replace('{:}', '')).group(1))
                close(dof, par.err ** 2 / 2, rtol=1e-9, atol=0.0501, what='effective degrees of freedom')
            continue
        got, nums, unit = parse(tex[0])
        if kind in ('>', '<'):
            equal(got, 'upper' if kind == '>' else 'lower', 'kind of limit')
            close(nums[0], lim.upper if kind == '>' else lim.lower, rtol=5.1e-3, what='one-tail limit')
        elif kind == 'none':
            equal(got, 'none', 'unconstrained')
        else:
            close(nums[0], par.mean, rtol=0, atol=max(unit * 0.501, 0.06 * abs(par.err) + 6e-3 * abs(par.mean) * (unit >= 1)), what='mean')
            if kind == 'sym' and limit == 1:
                equal(got, 'pm', 'symmetric limit')
                close(nums[1], par.err, rtol=0.51, what='error')
                close(nums[1], par.err, rtol=0.051 if nums[1] < 2 or True else 0.5, atol=0.51 * (par.mean >= 20 and par.err >= 2) * 10 ** math.floor(math.log10(par.err)), what='error')
            else:
                equal(got, 'asym', 'asymmetric limit')
                one = 0.51 * (par.mean >= 20)
                for a, b in ((nums[1], lim.upper - par.mean), (nums[2], lim.lower - par.mean)):
                    close(a, b, rtol=0.051, atol=one * 10 ** math.floor(math.log10(abs(b))) if abs(b) >= 1 else 0, what='error')
    assert m.texValues(form, 'not_a_parameter', limit=1) is None


@case(st.tuples(stat_specs(), st.integers(1, 4), st.integers(1, 3), st.sampled_from(['noline', 'open', 'table', None]), st.booleans(),
                st.sampled_from(['', 'names', 'list', 'fit', 'ref', 'indep', 'subset', 'both', 'sf']), st.booleans()), quick=800, shards=2)
def tables(c, t):
    """every parameter appears once, in order, with each result's own constraint in the right column"""
    spec, ncol, nres, fmt, titled, extra, single = c
    names = spec['names']
    r = np.random.RandomState(spec['seed'])
    limit = len(spec['contours'])
    results = [make_stats(spec)]
    for i in range(1, nres):
        keep = [n for n in names if r.randint(4)]
        results.append(make_stats(spec, seed=i, names=keep))
    if extra == 'fit':
        results = []
        for i in range(nres):
            b = types.BestFit()
            for k, n in enumerate(names):
                if i and r.randint(4) == 0:
                    continue
                p = ParamInfo(name=n, label='L_{' + n + '}')
                p.best_fit = float('%.6g' % r.normal())
                b.names.append(p)
            results.append(b)
    kw = {}
    form = {'noline': types.NoLineTableFormatter, 'open': types.OpenTableFormatter, 'table': types.TableFormatter, None: lambda: None}[fmt]()
    listed = list(names)
    if extra == 'names':
        pn = ParamNames()
        pn.names = [ParamInfo(name=n, label='M_{' + n + '}') for n in names[::-1]]
        kw['tableParamNames'] = pn
        listed = names[::-1]
    elif extra == 'list':
        listed = [n for n in names if r.randint(2)] or names[:1]
        kw['paramList'] = listed
    elif extra in ('ref', 'indep', 'subset', 'both'):
        kw['refResults'] = make_stats(spec, seed=77, names=[n for n in names if r.randint(5)])
        kw['shiftSigma_indep'] = extra in ('indep', 'both')
        kw['shiftSigma_subset'] = extra in ('subset', 'both')
    elif extra == 'sf':
        kw['numFormatter'] = NumberFormatter(sig_figs=7, err_sf=4)
    titles = ['set_%d' % i for i in range(nres)] if titled else None
    t.nontrivial(nres > 1 or ncol > 1 or extra != '')
    arg = results[0] if single and nres == 1 else results
    table = types.ResultTable(ncol, arg, limit=limit, titles=titles, formatter=form, **kw)
    tex = table.tableTex()
    lines = tex.split('\n')
    doc = table.tableTex(document=True, latex_preamble='% preamble', packages=('amsmath', 'xx')).split('\n')
    where = [doc.index(x) if x in doc else -1 for x in (r'\documentclass{article}', r'\usepackage{amsmath}', r'\usepackage{xx}', '% preamble', r'\begin{document}')]
    assert where[0] == 0 and where == sorted(set(where)), 'document before the table: %s' % doc[:8]
    equal(doc[where[-1] + 1:], lines + [r'\end{document}'], 'table in the document')
    assert lines[0].startswith(r'\begin{tabular}') and lines[-1] == r'\end{tabular}', 'table environment'
    per = len(results[0].getColumnLabels(limit))
    ncells = ncol * (1 + nres * per)
    spec_cols = re.findall('[lcr]', lines[0].split('}', 1)[1])
    equal(len(spec_cols), ncells, 'columns declared')
    for a, b in re.findall(r'\\cline\{(\d+)-(\d+)\}', tex):
        assert 1 <= int(a) <= int(b) <= ncells, 'line below columns %s to %s of %s' % (a, b, ncells)
    body = [line for line in lines if line.endswith(r'\\') and not line.startswith(r'\noalign')]
    if titled:
        head = body.pop(0)
        for x in titles:
            equal(head.count(x.replace('_', r'{\textunderscore}')), ncol, 'title ' + x)
        equal(sum(int(k) for k in re.findall(r'multicolumn\{(\d+)\}', head)), ncells, 'columns of the titles')
    head = body.pop(0)
    hc = [x.strip() for x in head[:-2].split('&')]
    equal(len(hc), ncells, 'header columns')
    pct = ('%.1f' % (spec['contours'][-1] * 100))
    pct = pct[:-2] if pct.endswith('.0') else pct
    one = ['Best fit'] if extra == 'fit' else (['Best fit'] if results[0].hasBestFit else []) + [pct + r'\% limits']
    equal(hc, (['Parameter'] + one * nres) * ncol, 'header')
    nrow = -(-len(listed) // ncol)
    equal(len(body), nrow, 'rows')
    use = NumberFormatter(sig_figs=7, err_sf=4) if extra == 'sf' else NumberFormatter()
    ref_form = types.NoLineTableFormatter()
    ref_form.numberFormatter = use

    def cell(res, name):
        p = res.parWithName(name)
        if p is None:
            return [''] * per
        if extra == 'fit':
            return ['$' + use.formatNumber(p.best_fit) + '$']
        base = res.texValues(ref_form, p, limit=limit)
        v = base[0]
        if 'refResults' in kw and v != '---':
            q = kw['refResults'].parWithName(name)
            if q is not None:
                d = p.mean - q.mean
                if extra == 'ref':
                    v += r'\quad(%+.1f \sigma)' % (d / q.err)
                else:
                    parts = []
                    if extra != 'indep':
                        parts.append(r'%+.1f \sigma_s' % (d / max(math.sqrt(abs(p.err ** 2 - q.err ** 2)), q.err / 20)))
                    if extra != 'subset':
                        parts.append(r'%+.1f \sigma_i' % (d / math.sqrt(p.err ** 2 + q.err ** 2)))
                    v += r'\quad(' + ', '.join(parts) + ')'
        v = '---' if v == '---' else '$' + v + '$'
        if len(base) > 1:
            # best fit shown to a tenth of the limits
            x, e = power(base[1])
            lim = p.limits[limit - 1]
            close(float(x) * 10. ** e, p.best_fit, rtol=6e-3, atol=0.06 * abs(lim.upper - lim.lower), what='best fit in table')
            return ['$' + base[1] + '$', v]
        return [v]

    for i, line in enumerate(body):
        cells = [x.strip() for x in line[:-2].split('&')]
        cells = [re.sub(r'\s+\$', '$', x) for x in cells]
        equal(len(cells), ncells, 'cells in row %r' % line)
        for col in range(ncol):
            at = col * (1 + nres * per)
            k = col * nrow + i
            got = cells[at:at + 1 + nres * per]
            if k >= len(listed):
                equal(got, [''] * len(got), 'empty cells')
                continue
            name = listed[k]
            par = (kw['tableParamNames'] if extra == 'names' else results[0]).parWithName(name)
            label = '$' + par.label + '$'
            equal(got[0], label if par.isDerived else r'{\boldmath' + label + '}', 'label')
            want = []
            for res in results:
                want += cell(res, name)
            equal(got[1:], want, 'results for ' + name)
    doc = table.tableTex(document=True, latex_preamble='PRE')
    assert doc.startswith(r'\documentclass') and tex in doc and 'PRE' in doc and doc.count(r'\end{document}') == 1, 'document'
    f = t.dir() + '/t.tex'
    table.write(f)
    equal(read(f), tex, 'written table')
