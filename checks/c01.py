import os
from hypothesis import strategies as st
import numpy as np
from vlib import case, write, read, equal, close, raises
from gen import nice_floats
from getdist.inifile import IniFile

RULE = ('file trees (INCLUDE/DEFAULT nesting in sub-directories, duplicate keys, comments, END, environment '
        'placeholders), dictionaries of values of every supported type, and load/modify/save histories; non-trivial: '
        'tree with an INCLUDE or DEFAULT that shares a key with another file, or a placeholder, or >=2 typed values, '
        'or a save followed by a reload')
ASSUMPTIONS = ['$ only occurs in values as $(NAME) or $$; keys and values have no line breaks and no surrounding blanks']

KEYCHARS = 'abkX_019()[].-/'
keys = st.text(KEYCHARS, min_size=1, max_size=5).filter(lambda k: k != 'END')
VALCHARS = 'abcXYZ019 .,=#-+_/()[]:;"\'eTF%\\{}é'
values = st.text(VALCHARS, max_size=14).map(lambda s: s.strip())
key_pool = st.sampled_from(['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'k', 'aa', 'b_c', 'x y',  'action', 'param[x]', 'name(1)'])
ENV = {'VERIF_A': 'alpha', 'VERIF_B': '', 'VERIF_C': '/tmp/x y'}
env_value = st.lists(st.one_of(
    st.sampled_from(['$(VERIF_A)', '$(VERIF_B)', '$(VERIF_C)', '$(VERIF_NOTSET)', '$$']),
    st.text('abc/._=', min_size=1, max_size=4)), min_size=1, max_size=5)

DIRS = ['', 'sub', 'sub/deep', 'other']


@st.composite
def trees(draw):
    n = draw(st.integers(1, 6))
    files = []
    for i in range(n):
        items = draw(st.lists(st.tuples(key_pool, st.one_of(values, env_value)), max_size=4))
        refs = []
        for j in range(i + 1, n):
            kind = draw(st.sampled_from([None, None, 'INCLUDE', 'DEFAULT', 'DEFAULT']))
            if kind:
                refs.append([kind, j, draw(st.integers(0, 2))])
        files.append(dict(dir=draw(st.sampled_from(DIRS)), items=[list(x) for x in items], refs=refs,
                          style=draw(st.integers(0, 3)), end=draw(st.booleans()),
                          pos=draw(st.integers(0, 4))))
    return dict(files=files, expand=draw(st.booleans()))


def val_text(v):
    return v if isinstance(v, str) else ''.join(v)


def val_expected(v, expand):
    if isinstance(v, str):
        return v
    text = ''.join(v)
    if not expand or '$(' not in text:
        return text
    return ''.join('$' if p == '$$' else (ENV.get(p[2:-1], '') if p.startswith('$(') else p) for p in v)


class Conflict(Exception):
    pass


class Ambiguous(Exception):
    pass


def write_tree(case, root):
    paths = []
    for i, f in enumerate(case['files']):
        d = os.path.join(root, f['dir'])
        os.makedirs(d, exist_ok=True)
        paths.append(os.path.join(d, 'f%d.ini' % i))
    for i, f in enumerate(case['files']):
        lines = []
        for k, v in f['items']:
            v = val_text(v)
            sep = ['=', ' = ', '\t=  ', '= '][f['style']]
            if f['style'] == 1:
                lines.append('# comment a=1')
            if f['style'] == 2:
                lines += ['', '  #b=2']
            lines.append((' ' if f['style'] == 3 else '') + k + sep + v)
        refl = []
        for kind, j, how in f['refs']:
            if how == 0:
                refl.append('%s(%s)' % (kind, os.path.relpath(paths[j], os.path.dirname(paths[i]))))
            elif how == 1:
                refl.append('%s(%s)' % (kind, paths[j]))
            else:
                refl.append('  %s(%s) ' % (kind, os.path.relpath(paths[j], os.path.dirname(paths[i]))))
        pos = min(f['pos'], len(lines))
        lines = lines[:pos] + refl + lines[pos:]
        if f['end']:
            lines += ['END', 'zzz = after_end', 'INCLUDE(nonexistent.ini)', 'a = 99']
        write(paths[i], '\n'.join(lines) + '\n')
    return paths


def reference(case):
    """own settings and INCLUDEd ones must not clash; DEFAULT files only fill what is not yet set, in order"""
    files = case['files']
    res = {}
    origin = {}

    def load(i, soft):
        for k, v in files[i]['items']:
            if k in res:
                if soft:
                    continue
                if origin[k]:
                    # explicit setting arriving after another file's DEFAULT set it: order not specified
                    raise Ambiguous()
                raise Conflict()
            res[k] = val_expected(v, case['expand'])
            origin[k] = soft
        for kind, j, _ in files[i]['refs']:
            if kind == 'INCLUDE':
                load(j, soft)
        for kind, j, _ in files[i]['refs']:
            if kind == 'DEFAULT':
                load(j, True)

    load(0, False)
    return res


@case(trees(), quick=1500)
def tree_load(case, t):
    os.environ.update(ENV)
    os.environ.pop('VERIF_NOTSET', None)
    root = t.dir()
    paths = write_tree(case, root)
    refs = [r for f in case['files'] for r in f['refs']]
    t.nontrivial(case['files'][0]['refs'])
    try:
        expected = reference(case)
    except Ambiguous:
        t.is_nontrivial = False
        t.label('ambiguous')
        return
    except Conflict:
        t.label('conflict')
        assert raises(IniFile, paths[0], expand_environment_variables=case['expand']), 'duplicate key accepted'
        return
    t.label('nested', len(refs) > 1)
    ini = IniFile(paths[0], expand_environment_variables=case['expand'])
    equal(ini.params, expected, 'loaded settings')
    for k, v in expected.items():
        equal(ini.string(k), v, k)
        equal(ini.isSet(k), v != '', 'isSet')
        assert ini.hasKey(k) and ini.isSet(k, allowEmpty=True)
    assert not ini.hasKey('zzz')
    # file names in the settings are relative to the file that was opened
    k = 'rel'
    ini.params[k] = 'x/y.dat'
    equal(os.path.abspath(ini.relativeFileName(k)), os.path.join(os.path.dirname(os.path.abspath(paths[0])), 'x/y.dat'),
          'relative file name')
    ini.params[k] = '/abs/y.dat'
    equal(ini.relativeFileName(k), '/abs/y.dat', 'absolute file name')
    del ini.params[k]
    # keeping the inheritance: a saved copy next to it resolves to the same settings
    if not case['expand'] and not any('$' in v for v in expected.values()):
        kept = IniFile(paths[0], keep_includes=True, expand_environment_variables=False)
        copy = os.path.join(os.path.dirname(paths[0]), 'copy.ini')
        kept.saveFile(copy)
        equal(IniFile(copy, expand_environment_variables=False).params, expected, 'settings of copy with includes kept')
        # saving back without a name rewrites the file that was opened, and no other
        before = [read(p) for p in paths]
        ini = IniFile(paths[0], expand_environment_variables=False)
        ini.params['newkey'] = 'new'
        ini.saveFile()
        for p, text in zip(paths[1:], before[1:]):
            equal(read(p), text, 'text of ' + p)
        equal(IniFile(paths[0], expand_environment_variables=False).params, dict(expected, newkey='new'),
              'settings saved in place')


typed = st.dictionaries(keys, st.one_of(
    st.tuples(st.just('int'), st.integers(-10 ** 12, 10 ** 12)),
    st.tuples(st.just('float'), nice_floats()),
    st.tuples(st.just('bool'), st.booleans()),
    st.tuples(st.just('str'), values),
    st.tuples(st.just('ints'), st.lists(st.integers(-999, 999), max_size=4)),
    st.tuples(st.just('floats'), st.lists(nice_floats(), max_size=4)),
    st.tuples(st.just('bools'), st.lists(st.booleans(), max_size=4)),
    st.tuples(st.just('words'), st.lists(st.text('abX1._/', min_size=1, max_size=4), max_size=4)),
    st.tuples(st.just('empty'), st.just('')),
), max_size=7).map(lambda d: [[k] + list(v) for k, v in d.items()])


def as_text(kind, v, style):
    if kind == 'bool':
        return [('F', 'T'), ('False', 'True'), ('F', 'True'), ('False', 'T')][style % 4][v]
    if kind == 'bools':
        return ' '.join(as_text('bool', x, style) for x in v)
    if kind in ('ints', 'words'):
        return '  '.join(str(x) for x in v)
    if kind == 'floats':
        return ' '.join(repr(x) for x in v)
    return str(v)


def check_getters(ini, items, note):
    for k, kind, v in items:
        if kind == 'int':
            equal(ini.int(k), v, k, note)
            equal(ini.int(k, v + 1), v, k, note)
            close(ini.float(k), float(v), what=k)
        elif kind == 'float':
            close(ini.float(k), v, rtol=1e-14, what=k)
            close(ini.float(k, v + 1), v, rtol=1e-14, what=k)
        elif kind == 'bool':
            for d in (True, False):
                assert ini.bool(k, d) is v, '%s: %r' % (k, ini.bool(k, d))
            assert ini.bool(k) is v
        elif kind == 'str' and v:
            equal(ini.string(k), v, k, note)
            equal(ini.string(k, 'dflt'), v, k, note)
            equal(list(ini.split(k)), v.split(), k, note)
            equal(list(ini.list(k)), v.split(), k, note)
        elif kind == 'ints' and v:
            equal(list(ini.int_list(k)), v, k, note)
            equal(list(ini.int_list(k, [5])), v, k, note)
            close(ini.ndarray(k), v, what=k)
            equal(list(ini.split(k, tp=int)), v, k, note)
        elif kind == 'floats' and v:
            close(list(ini.float_list(k)), v, rtol=1e-14, what=k)
            close(ini.ndarray(k), v, rtol=1e-14, what=k)
        elif kind == 'bools' and v:
            equal(list(ini.bool_list(k)), v, k, note)
        elif kind == 'words' and v:
            equal(list(ini.list(k)), v, k, note)
            equal(list(ini.split(k)), v, k, note)
        else:  # present but empty
            assert not ini.isSet(k), 'empty value reported as set'
            assert ini.isSet(k, allowEmpty=True) and ini.hasKey(k)
            equal(ini.string(k, 'dflt', allowEmpty=False), 'dflt', k)
            equal(ini.string(k, 'dflt'), '', k)
            equal(ini.int(k, 7), 7, k)
            equal(ini.float(k, 7.5), 7.5, k)
            assert ini.bool(k, True) is True and ini.bool(k, False) is False
            assert raises(ini.int, k) and raises(ini.float, k)


@case(st.tuples(typed, st.integers(0, 3), keys), quick=1500)
def typed_values(case, t):
    items, style, absent = case
    d = t.dir()
    fname = os.path.join(d, 'x.ini')
    write(fname, '\n'.join('%s = %s' % (k, as_text(kind, v, style)) for k, kind, v in items))
    t.nontrivial(len(items) >= 2)
    for _, kind, v in items:
        t.label(kind)
    ini = IniFile(fname, expand_environment_variables=False)
    check_getters(ini, items, 'read from file')
    # round trip through a saved file
    out = os.path.join(d, 'y.ini')
    ini.saveFile(out)
    check_getters(IniFile(out, expand_environment_variables=False), items, 'after save and load')
    equal([line.split('=')[0].strip() for line in read(out).splitlines()], [k for k, _, _ in items], 'order in saved file')
    # settings from native values
    native = {k: v for k, kind, v in items if kind in ('int', 'float', 'bool', 'str', 'empty')}
    sub = [it for it in items if it[0] in native]
    check_getters(IniFile(native), sub, 'native')
    IniFile(native).saveFile(out)
    check_getters(IniFile(out, expand_environment_variables=False), sub, 'native after save and load')
    lists = {k: v for k, kind, v in items if kind in ('ints', 'floats', 'words') and v}
    check_getters(IniFile(lists), [it for it in items if it[0] in lists], 'native lists')
    # undefined names
    if absent not in [it[0] for it in items]:
        assert not ini.hasKey(absent) and not ini.isSet(absent)
        for f in (ini.int, ini.float, ini.string):
            assert raises(f, absent), 'undefined parameter accepted'
        equal(ini.int(absent, 0), 0, 'default')
        equal(ini.float(absent, 0.), 0., 'default')
        equal(ini.string(absent, ''), '', 'default')
        assert ini.bool(absent) is False and ini.bool(absent, True) is True
        equal(list(ini.list(absent)), [], 'default')
        equal(list(ini.list(absent, ['q'])), ['q'], 'default')
        equal(list(ini.float_list(absent, [1.5])), [1.5], 'default')
        equal(list(ini.int_list(absent)), [], 'default')


@case(st.tuples(st.lists(st.tuples(st.integers(1, 12), st.integers(-99, 99), st.booleans(), nice_floats(),
                                   st.text('abc', min_size=1, max_size=3)), max_size=4,
                         unique_by=lambda x: x[0]), st.integers(0, 3)), quick=400)
def indexed_values(case, t):
    rows, style = case
    params = {}
    for i, a, b, c, s in rows:
        params['x(%d)' % i] = str(a)
        params['f(%d)' % i] = as_text('bool', b, style)
        params['y(%d)' % i] = repr(c)
        params['s(%d)' % i] = s
    ini = IniFile(params)
    have = [r[0] for r in rows]
    t.nontrivial(len(rows) > 1)
    for i, a, b, c, s in rows:
        equal(ini.array_int('x', i), a, 'x(%d)' % i)
        assert ini.array_bool('f', i) is b
        close(ini.array_float('y', i), c, rtol=1e-14)
        equal(ini.array_string('s', i), s, 's')
    for i in range(1, 13):
        if i not in have:
            equal(ini.array_int('x', i, 5), 5, 'default')
            equal(ini.array_string('s', i, 'd'), 'd', 'default')
            assert ini.array_bool('f', i, True) is True
            assert raises(ini.array_float, 'y', i)
    if 1 in have:
        equal(ini.array_int('x'), [r[1] for r in rows if r[0] == 1][0], 'default index')


class Obj:
    pass


@case(st.tuples(typed, st.integers(0, 3)), quick=400)
def attributes(case, t):
    """Option objects: attributes take the file's value in the attribute's own type, or keep theirs"""
    items, style = case
    params = {k: as_text(kind, v, style) for k, kind, v in items}
    ini = IniFile(params)
    zero = dict(int=3, float=2.5, bool=True, str='x', words=['x'])
    o = Obj()
    t.nontrivial(len(items) >= 2)
    for k, kind, v in items:
        if kind not in zero:
            continue
        if kind in ('str', 'words') and not v:
            continue
        setattr(o, k, zero[kind])
        setattr(o, 'no_' + k, zero[kind])
        ini.setAttr(k, o)
        ini.setAttr('no_' + k, o)
        got = getattr(o, k)
        if kind == 'float':
            close(got, v, rtol=1e-14, what=k)
        else:
            equal(got, v, k)
        equal(getattr(o, 'no_' + k), zero[kind], 'unset attribute')
        back = IniFile()
        back.getAttr(o, k)
        equal(back.params[k], got, 'attribute to settings')


ops = st.lists(st.one_of(
    st.tuples(st.just('set'), key_pool, values),
    st.tuples(st.just('delete'), st.lists(key_pool, max_size=3)),
    st.tuples(st.just('replace'), st.sampled_from(['%ROOT%', 'a', 'X']), st.text('abX/', max_size=4)),
    st.tuples(st.just('reload')),
), max_size=10)


@case(st.tuples(st.dictionaries(key_pool, values, max_size=5), ops), quick=800)
def edit_history(case, t):
    start, hist = case
    d = t.dir()
    fname = os.path.join(d, 'x.ini')
    model = dict(start)
    ini = IniFile(dict(start), expand_environment_variables=False)
    t.nontrivial(any(o[0] == 'reload' for o in hist) and len(hist) > 1)
    for o in hist + [['reload']]:
        if o[0] == 'set':
            model[o[1]] = o[2]
            ini.params[o[1]] = o[2]
        elif o[0] == 'delete':
            for k in o[1]:
                model.pop(k, None)
            ini.delete_keys(o[1])
        elif o[0] == 'replace':
            model = {k: v.replace(o[1], o[2]) for k, v in model.items()}
            ini.replaceTags(o[1], o[2])
        else:
            if any(v != v.strip() for v in model.values()):
                model = {k: v.strip() for k, v in model.items()}
            ini.saveFile(fname)
            ini = IniFile(fname, expand_environment_variables=False)
        equal({k: v.strip() for k, v in ini.params.items()}, {k: v.strip() for k, v in model.items()},
              'settings after ' + o[0])
