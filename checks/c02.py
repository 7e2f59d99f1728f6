import os
import fnmatch
from hypothesis import strategies as st
from vlib import case, write, read, equal, raises, Discard
from gen import param_names, name_list
from getdist.paramnames import ParamNames, ParamInfo, ParamList, mergeRenames, makeList

RULE = ('parameter lists with labels, comments, derived flags and aliases, lookup requests (exact, alias, glob, absent), '
        'alias tables and edit histories; non-trivial: >=2 parameters and at least one alias/glob/derived/comment/edit involved')
ASSUMPTIONS = ['labels contain no #, ! or line breaks; comments no line breaks (file format limits)',
               'for alias merging, lists where two listed parameters are aliases of each other are excluded']

LABEL = 'abXY01\\_^{}$ ,.()+-/<>|é*?'
label = st.text(LABEL, max_size=10).map(lambda s: s.strip())
comment = st.text(LABEL + '#!', max_size=10).map(lambda s: s.strip())
row = st.tuples(label, comment, st.booleans())


@st.composite
def tables(draw, min_size=0, max_size=6):
    names = draw(name_list(min_size, max_size))
    return [[n] + list(draw(row)) for n in names]


def build(rows):
    p = ParamNames()
    p.names = [ParamInfo(name=n, label=l, comment=c, derived=d) for n, l, c, d in rows]
    for info, r in zip(p.names, rows):
        info.label = r[1]
    return p


def rows_of(p):
    return [[x.name, x.label, x.comment, x.isDerived] for x in p.names]


@case(st.tuples(tables(), tables(), st.integers(0, 2)), quick=1200)
def file_round_trip(case, t):
    rows, other, style = case
    d = t.dir()
    f = os.path.join(d, 'x.paramnames')
    t.nontrivial(len(rows) >= 2 and any(r[3] or r[2] for r in rows))
    build(rows).saveAsText(f)
    p = ParamNames(f)
    equal(rows_of(p), rows, 'saved and reloaded')
    # free-format hand-written files
    sep = ['\t', ' ', '   \t '][style]
    text = ''
    for n, l, c, der in rows:
        text += (' ' if style == 1 else '') + n + ('*' if der else '') + sep + l.replace('\\', '!' if style == 2 else '\\')
        if c:
            text += sep + '#' + ' ' * style + c
        text += '\n' + ('\n' if style else '')
    g = os.path.join(d, 'y.paramnames')
    write(g, ('\ufeff' if style == 2 else '') + text)
    q = ParamNames(g)
    equal(rows_of(q), rows, 'hand-written file')
    equal(q.list(), [r[0] for r in rows], 'names')
    equal(q.labels(), [r[1] for r in rows], 'labels')
    equal(q.getDerivedNames(), [r[0] for r in rows if r[3]], 'derived names')
    equal(q.getRunningNames(), [r[0] for r in rows if not r[3]], 'running names')
    equal([q.numParams(), q.numDerived(), q.numNonDerived()],
          [len(rows), sum(r[3] for r in rows), sum(not r[3] for r in rows)], 'counts')
    for i, r in enumerate(rows):
        equal(q.numberOfName(r[0]), i, 'index of ' + r[0])
        equal(q.name(i), r[0], 'name')
        equal(q.name(i, tag_derived=True), r[0] + ('*' if r[3] else ''), 'tagged name')
        assert q.hasParam(r[0])
        equal(q.names[i].getLabel(), r[1] or r[0], 'label or name')
        equal(q.names[i].latexLabel(), '$' + r[1] + '$' if r[1] else r[0], 'latex label')
    # labels (and derived flags) overridden from another file
    h = os.path.join(d, 'z.paramnames')
    build(other).saveAsText(h)
    omap = {r[0]: r for r in other}
    exp1 = [[n, omap[n][1] if n in omap else l, c, der] for n, l, c, der in rows]
    exp2 = [[n, l, c, omap[n][3] if n in omap else der] for n, l, c, der in exp1]
    q.setLabelsFromParamNames(h)
    equal(rows_of(q), exp1, 'labels set from file')
    q.setLabelsAndDerivedFromParamNames(h)
    equal(rows_of(q), exp2, 'labels and derived set from file')
    equal(rows_of(ParamNames(f, setParamNameFile=h)), exp1, 'labels set while loading')


@st.composite
def lookups(draw):
    names = draw(name_list(1, 6))
    pool = names + ['zz', 'al1', 'al2', 'al3', 'al4']
    aliases = [draw(st.lists(st.sampled_from(['al1', 'al2', 'al3', 'zz']), max_size=2, unique=True)) for _ in names]
    renames = draw(st.none() | st.dictionaries(st.sampled_from(pool), st.one_of(
        st.sampled_from(pool), st.lists(st.sampled_from(pool), max_size=2)), max_size=3))
    prefix = draw(st.sampled_from(names))[:2]
    glob = st.sampled_from(['*', '?', '??', '*a*', '[ab]*', prefix + '*', '*' + prefix, prefix[:1] + '?', '*8', 'q*', '*_*'])
    req = draw(st.lists(st.one_of(st.sampled_from(pool), glob, param_names), max_size=5))
    return dict(names=names, aliases=aliases, renames=renames, req=req)


@case(lookups(), quick=1500)
def lookup(case, t):
    p = ParamNames(names=case['names'])
    for info, al in zip(p.names, case['aliases']):
        info.renames = list(al)
    ren = case['renames']
    t.nontrivial(len(case['names']) > 1 and len(case['req']) > 0)

    def ref(name):
        given = {name} | set(makelist(ren.get(name, [])) if ren else [])
        for n, al in zip(case['names'], case['aliases']):
            known = {n} | set(al) | set(makelist(ren.get(n, [])) if ren else [])
            if known & given:
                return n
        return None

    def makelist(x):
        return x if isinstance(x, list) else [x]

    expected = []
    for r in case['req']:
        if '*' in r or '?' in r:
            t.label('glob')
            exp = [n for n in case['names'] if fnmatch.fnmatchcase(n, r)]
            equal(p.getMatches(r, strings=True), exp, 'matches')
            expected += exp
        else:
            exp = ref(r)
            t.label('found' if exp else 'absent')
            t.label('via alias', exp is not None and exp != r)
            got = p.parWithName(r, renames=ren)
            equal(got.name if got else None, exp, 'lookup of ' + r)
            equal(raises(p.parWithName, r, error=True, renames=ren), exp is None, 'error on absence')
            equal(p.hasParam(r), r in case['names'], 'exact membership')
            equal(p.numberOfName(r), case['names'].index(r) if r in case['names'] else -1, 'index')
            if got:
                equal(got.nameEquals(r), exp == r, 'nameEquals')
                equal(got.nameEquals(p.names[0]), exp == case['names'][0], 'nameEquals')
            expected.append(exp)
    got = p.parsWithNames(case['req'], renames=ren)
    equal([x.name if x else None for x in got], expected, 'list lookup')
    equal(raises(p.parsWithNames, case['req'], error=True, renames=ren), None in expected, 'error in list lookup')
    # order of list does not depend on the objects passed
    equal([x.name for x in p.parsWithNames(list(p.names))], case['names'], 'lookup of parameter objects')


@st.composite
def alias_tables(draw):
    pool = ['n%d' % i for i in range(10)]
    dicts = []
    for _ in range(draw(st.integers(1, 3))):
        dicts.append(draw(st.dictionaries(st.sampled_from(pool), st.one_of(
            st.none(), st.sampled_from(pool), st.lists(st.sampled_from(pool), max_size=3, unique=True)), max_size=4)))
    return dict(dicts=dicts, keep=draw(st.booleans()))


def components(dicts):
    comps = []
    for d in dicts:
        for k, v in d.items():
            s = {k} | set(v if isinstance(v, list) else ([v] if v else []))
            hit = [c for c in comps if c & s]
            for c in hit:
                comps.remove(c)
                s |= c
            comps.append(s)
    return comps


@case(alias_tables(), quick=2000)
def merge_aliases(case, t):
    dicts = case['dicts']
    comps = components(dicts)
    import copy
    before = copy.deepcopy(dicts)
    kw = dict(keep_names_1st=True) if case['keep'] else {}
    merged = mergeRenames(*dicts, **kw)
    equal(dicts, before, 'input tables unchanged')
    t.nontrivial(len(dicts) > 1 and any(len(c) > 2 for c in comps))
    t.label('components %d' % min(len(comps), 4))
    seen = []
    for k, v in merged.items():
        c = {k} | set(v)
        assert c in comps, 'merged group %s is not a connected group of %s' % (sorted(c), comps)
        assert k not in v and len(set(v)) == len(v), 'repeated name'
        left = [d for d in dicts if set(d) & c][0]
        assert k in left, 'key %s not from the left-most table mentioning the group' % k
        assert c not in seen, 'group listed twice'
        seen.append(c)
    for c in comps:
        firsts = [set(d) & c for d in dicts if set(d) & c]
        if c not in seen:
            # only groups that add no alias to the names already listed as keys may be left out
            assert not case['keep'] and all(f == c for f in firsts), 'group %s lost' % sorted(c)


@st.composite
def own_aliases(draw):
    names = draw(st.lists(st.sampled_from(['a', 'b', 'c', 'd']), min_size=1, max_size=4, unique=True))
    hist = draw(st.lists(st.dictionaries(st.sampled_from(['a', 'b', 'c', 'd', 'x1', 'x2', 'x3']),
                                         st.lists(st.sampled_from(['x1', 'x2', 'x3', 'x4', 'x5', 'x6']), min_size=1,
                                                  max_size=2, unique=True),
                                         max_size=2), min_size=1, max_size=3))
    return dict(names=names, hist=hist)


@case(own_aliases(), quick=1500)
def update_aliases(case, t):
    names = case['names']
    p = ParamNames(names=names)
    state = {n: [] for n in names}
    for d in case['hist']:
        comps = components([state, d])
        if any(len(c & set(names)) > 1 for c in comps):
            t.label('two listed names linked')
            return
        p.updateRenames(d)
        for c in comps:
            own = c & set(names)
            if own:
                n = own.pop()
                state[n] = sorted(c - {n})
        equal({x.name: sorted(x.renames) for x in p.names}, state, 'aliases')
        t.nontrivial(any(state.values()) and len(names) > 1)
        for n, al in state.items():
            for a in al:
                equal(p.parWithName(a).name, n, 'found by alias')
        equal({k: sorted(v) for k, v in p.getRenames().items()}, {k: v for k, v in state.items() if v}, 'known aliases')
        equal({k: sorted(v) for k, v in p.getRenames(keep_empty=True).items()}, state, 'known aliases')


edits = st.lists(st.one_of(
    st.tuples(st.just('add'), param_names, label, comment, st.sampled_from([None, True, False])),
    st.tuples(st.just('delete'), st.lists(st.integers(0, 7), max_size=3)),
    st.tuples(st.just('filter'), st.lists(st.integers(0, 7), max_size=5), st.booleans()),
    st.tuples(st.just('labels'), st.lists(label, max_size=6)),
    st.tuples(st.just('reload')),
), max_size=8)


@case(st.tuples(tables(), edits), quick=1200)
def edit_history(case, t):
    rows, hist = case
    p = build(rows)
    rows = [list(r) for r in rows]
    d = t.dir()
    t.nontrivial(len(hist) > 1 and len(rows) > 1)
    for op in hist:
        if op[0] == 'add':
            _, n, l, c, der = op
            if n in [r[0] for r in rows]:
                continue
            kw = {} if der is None else dict(derived=der)
            got = p.addDerived(n, label=l, comment=c, **kw)
            rows.append([n, l or n, c, True if der is None else der])
            assert got is p.names[-1]
        elif op[0] == 'delete':
            p.deleteIndices(op[1])
            rows = [r for i, r in enumerate(rows) if i not in op[1]]
        elif op[0] == 'filter':
            keep = [rows[i][0] for i in op[1] if i < len(rows)]
            p = p.filteredCopy(keep if op[2] else ParamNames(names=keep))
            rows = [r for r in rows if r[0] in keep]
        elif op[0] == 'labels':
            p.setLabels(op[1])
            for r, l in zip(rows, op[1]):
                r[1] = l
        else:
            f = os.path.join(d, 'x.paramnames')
            p.saveAsText(f)
            p = ParamNames(f)
        equal(rows_of(p), rows, 'parameters after ' + op[0])


@case(st.integers(1, 30), quick=30)
def default_names(n, t):
    p = ParamNames(default=n)
    t.nontrivial(n > 1)
    equal(rows_of(p), [['param%d' % (i + 1), 'p_{%d}' % (i + 1), '', False] for i in range(n)], 'default names')


@case(st.text('ab*? \tc_', min_size=1, max_size=4), quick=300)
def invalid_names(s, t):
    bad = any(c in s for c in '*? \t')
    t.nontrivial(bad)
    equal(raises(lambda: ParamInfo(name=s)), bad, 'rejected ' + repr(s))
