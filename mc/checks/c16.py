"""C16: reading a document never changes it, and is deterministic.

Every read operation of the public interface, in all ordered pairs, on every document of a set (parsed, with
declarations, with includes, built and edited through the API): after the two, every read operation gives what it gives on a
fresh document. (iter) Every pair of iterators, the first suspended or abandoned after each number of items. (stale) Every
read operation before every edit: afterwards all read operations give what they give if nothing was read before. (again)
Every document parsed again after each history. (seeds) All outputs in processes with different hash seeds.
"""
import csv
import hashlib
import json
import os
import subprocess
import sys

from mc import gen, ops
from mc.common import Violation
from mc.impl import attempt, rows_doc, MetatabDoc, MetatabRowGenerator
from mc.snap import snap

LEVEL = 'model_checking'

DECL = [
    ['Section', 'DeclaredSections'],
    ['DeclareSection', 'Schema', 'DataType', 'Description'],
    ['DeclareSection', 'Resources', 'Name', 'Title'],
    ['Section', 'DeclaredTerms', 'TermValueName', 'ChildPropertyType', 'Section', 'InheritsFrom', 'Synonym'],
    ['DeclareTerm', 'Description', 'description', 'sconcat', 'Root'],
    ['DeclareTerm', 'Root.A', 'name', '', 'Root'],
    ['DeclareTerm', 'A.P', '', '', 'Root'],
    ['DeclareTerm', 'B', '', '', 'Root', 'Root.A'],
    ['DeclareTerm', 'D', '', '', 'Root', 'A'],
    ['DeclareTerm', 'E', '', '', 'Root', 'A'],
    ['DeclareTerm', 'F', '', '', 'Root', 'A'],
    ['DeclareTerm', 'Table', 'Name', 'sequence', 'Schema'],
    ['DeclareTerm', 'Table.Column', 'Name', 'sequence', 'Schema'],
    ['DeclareTerm', 'Root.Datafile', 'Url', 'sequence', 'Resources'],
]
INC = [['Inc', '1', 'i1'], ['Section', 'I', 'w'], ['Inc', '2', 'i2'], ['.Sub', '3']]

BASE = [['Title', 'T'], ['Name', 'n'], ['A', '1', 'a1'], ['A.B', 'b'], ['A.B', 'c', 'd'], ['A', ''],
        ['Section', 'S', 'p', 'q'], ['A', '2', 'x', 'y'], ['B', '', 'z'], ['B.p', '4'], ['p.C', '5', '6'], ['A', '3', '', 'w'],
        ['Section', 'T', '', 'r'], ['C', '7', '8', '9', '10'], ['Header', 'v', 'h'], ['C', '11', '12']]
IDENT = [['Dataset', 'ds'], ['Origin', 'o.org'], ['Version', ''], ['Version.Major', '1'], ['Version.Patch', '3'], ['Identifier', 'id'],
         ['Name', 'nm'], ['Time', '2020'], ['Description', 'd1'], ['Description', 'd2'],
         ['Section', 'Schema', 'DataType', 'Description'], ['Table', 't'], ['Table.Column', 'c1', 'int', 'de'], ['.Note', 'n'],
         ['Table.Column', 'c2', '', ''], ['Section', 'Resources', 'Name', 'Title'], ['Datafile', 'http://u', 't', 'ti'],
         ['Datafile', 'u2', 't', ''], ['.Table', 't']]
DECLARED = [['Declare', 'd16.csv'], ['A', '1', 'x'], ['F', '2'], ['D', '3'], ['B', '4'], ['E', '5']] + IDENT
INCLUDING = [['Title', 'T'], ['Section', 'S', 'p'], ['A', '1', 'x'], ['Include', 'i16.csv'], ['A', '2', 'y'], ['A.B', '3']]


def setup(tier):
    for n, rows in (('d16.csv', DECL), ('i16.csv', INC), ('m16-0.csv', BASE), ('m16-1.csv', DECLARED), ('m16-2.csv', INCLUDING)):
        with open(n, 'w', newline='') as f:
            csv.writer(f).writerows(rows)


def built():
    d = MetatabDoc()
    d['Root'].new_term('Title', 'X')
    s = d.new_section('S', ['p', 'q'])
    a = s.new_term('A', '1', p='x', other='o')
    a.new_child('B', '2', deep='3').new_child('C', '4')
    s.new_term('B', None)
    d['Root'].set_terms(Dataset='ds', Version='7')
    a['p'] = 'changed'
    a['gone'] = 'g'
    a['gone'] = None
    d.new_section('T')
    d.sort_sections(['T'])
    s.sort_by_term(['root.b'])
    return d


def valued():
    """With values that only the API can set"""
    d = rows_doc([['Title', ''], ['Section', 'S', 'p', 'q'], ['A', '1', 'x', 'y'], ['A', '', ''], ['B', '2', 'z']])
    s = d['S']
    a = s.new_term('A', '', p='', q=None)
    a.new_child('B', 0)
    a.new_child('B', '')
    s.new_term('C', 12, p=1.5, q=0)
    s.new_term('B', '  ', p=' x ')
    d.find_first('Root.Title').value = ''
    d.new_section('')
    d['Root'].get_or_new_term('Name', '')
    return d


DOCS = {
    'valued': valued,
    'base': lambda: MetatabDoc('m16-0.csv'),
    'declared': lambda: MetatabDoc('m16-1.csv'),
    'including': lambda: MetatabDoc('m16-2.csv'),
    'built': built,
    'ident': lambda: rows_doc(IDENT),
    'empty': lambda: MetatabDoc(),
    'predeclared': lambda: MetatabDoc(MetatabRowGenerator(IDENT), decl='d16.csv'),
}


# What a reader gave, as something that can be compared

def obs(v, depth=0):
    from metatab import Term
    if depth > 30:
        return '...'
    if isinstance(v, Term):
        return ('term', type(v).__name__, repr(v), str(v))
    if isinstance(v, dict):
        return ('dict', tuple((k, obs(e, depth + 1)) for k, e in v.items()))
    if isinstance(v, (set, frozenset)):
        return ('set', tuple(sorted(repr(obs(e, depth + 1)) for e in v)))
    if isinstance(v, (list, tuple)):
        return ('list', tuple(obs(e, depth + 1) for e in v))
    if v is None or isinstance(v, (str, int, float, bool)):
        return v
    if hasattr(v, '__next__'):
        return ('list', tuple(obs(e, depth + 1) for e in v))
    return repr(type(v))


def first(s):
    return next(iter(s))


def terms(d):
    """All terms, children included, not through the iterators of the document"""
    out = []

    def walk(t):
        out.append(t)
        for c in t.children:
            walk(c)
    for s in list(d.sections.values()):
        for t in list(s.terms):
            walk(t)
    return out


def each(fn):
    return lambda d: [(attempt(lambda: obs(fn(t)))) for t in terms(d)]


def each_section(fn):
    return lambda d: [(attempt(lambda: obs(fn(s)))) for s in d.sections.values()]


def convert(d):
    from metatab.datapackage import convert_to_datapackage
    return convert_to_datapackage(d)


READERS = {
    'as_dict': lambda d: d.as_dict(),
    'as_dict_raw': lambda d: d.as_dict(False),
    'as_csv': lambda d: d.as_csv(),
    'as_lines': lambda d: d.as_lines(),
    'rows': lambda d: list(d.rows),
    'lines': lambda d: list(d.lines),
    'all_terms': lambda d: list(d.all_terms),
    'iter': lambda d: list(d),
    'terms': lambda d: list(d.terms),
    'sections': lambda d: list(d.sections.items()),
    'find': lambda d: d.find('A'),
    'find_list': lambda d: d.find(['*.B', 'Root.A', 'nosuch']),
    'find_value': lambda d: d.find('Root.*', value='1'),
    'find_section': lambda d: d.find('A', section=['S', 'Root']),
    'find_props': lambda d: d.find('Root.*', p='x'),
    'find_first': lambda d: d.find_first('*.C'),
    'find_first_value': lambda d: [d.find_first_value('A'), d.find_first_value('nosuch')],
    'get': lambda d: [d.get('A'), d.get('nosuch', 5)],
    'get_value': lambda d: [d.get_value('A', section='S'), d.get_value('nosuch', 'dflt')],
    'contains': lambda d: ['s' in d, 'nosuch' in d],
    'getitem': lambda d: [d['root'], d[['Root']]],
    'getitem_missing': lambda d: d['nosuch'],
    'get_section': lambda d: d.get_section('nosuch', None),
    'section_args': lambda d: [d.section_args('schema'), d.section_args('Nosuch')],
    'term_class': lambda d: [d.get_term_class('A').__name__, d.get_term_class('x.y').__name__],
    'decl': lambda d: [d.decl_terms, d.decl_sections],
    'derived': lambda d: [d.derived_terms, d.super_terms],
    'errors': lambda d: d.errors,
    'version+': lambda d: d.as_version('+1'),
    'version-': lambda d: d.as_version('-'),
    'version_none': lambda d: d.as_version(None),
    'version_x': lambda d: d.as_version('9'),
    'ref': lambda d: [str(d.ref), d.doc_dir and os.path.basename(d.doc_dir), d.path],
    'datapackage': convert,
    't.as_dict': each(lambda t: t.as_dict()),
    't.as_dict_raw': each(lambda t: t.as_dict(False)),
    't.props': each(lambda t: t.props),
    't.arg_props': each(lambda t: t.arg_props),
    't.all_props': each(lambda t: t.all_props),
    't.rows': each(lambda t: list(t.rows)),
    't.descendents': each(lambda t: list(t.descendents)),
    't.find': each(lambda t: [list(t.find('B')), list(t.find('p', value='x'))]),
    't.find_first': each(lambda t: [t.find_first('B'), t.find_first_value('p'), t.find_first('nosuch')]),
    't.item': each(lambda t: t['p']),
    't.item_value': each(lambda t: t['value']),
    't.attr': each(lambda t: [t.value, t.name, t.url, t.p]),
    't.attr_missing': each(lambda t: t.nosuch),
    't.get': each(lambda t: [t.get('p'), t.get('nosuch', 4), t.get_value('p'), t.get_value('nosuch', 5)]),
    't.contains': each(lambda t: ['p' in t, 'nosuch' in t, 'value' in t]),
    't.names': each(lambda t: [t.term, t.join, t.join_lc, t.qualified_term, t.record_term, t.parent_term, t.record_term_lc, t.parent_term_lc, t.property_names]),
    't.links': each(lambda t: [t.parent, t.section, t.doc is not None, t.children, t.is_terminal, t.is_arg_child, t.has_elided_parent]),
    't.place': each(lambda t: [t.row, t.col, t.file_name, t.file_ref(), t.file_type]),
    't.types': each(lambda t: [t.term_value_name, t.child_property_type, t.valid, t.args]),
    't.term_is': each(lambda t: [t.term_is('A'), t.term_is('*.B'), t.term_is(['A', 'x.y'])]),
    't.iter': each(lambda t: list(t)),
    's.iter': each_section(lambda s: list(s)),
    's.as_dict': each_section(lambda s: s.as_dict()),
    's.as_dict_raw': each_section(lambda s: s.as_dict(False)),
    's.as_lines': each_section(lambda s: s.as_lines()),
    's.rows': each_section(lambda s: list(s.rows)),
    's.lines': each_section(lambda s: list(s.lines)),
    's.header_rows': each_section(lambda s: list(s.header_rows)),
    's.find': each_section(lambda s: [s.find('A'), s.find('Root.*', value='1'), s.find_first('A'), s.find_first_value('A')]),
    's.item': each_section(lambda s: [s['A'], s['nosuch'], s.get_term('B')]),
    's.get': each_section(lambda s: [s.get('A'), s.get_value('A'), s.get_value('nosuch', 3)]),
    's.names': each_section(lambda s: [s.name, s.value, s.args, s.property_names, s.children, s.terms]),
}

ITERS = {
    'rows': lambda d: iter(d.rows),
    'lines': lambda d: iter(d.lines),
    'all_terms': lambda d: iter(d.all_terms),
    'iter': lambda d: iter(d),
    'section': lambda d: iter(d['S']),
    'section.rows': lambda d: iter(d['S'].rows),
    'section.lines': lambda d: iter(d['S'].lines),
    'term.rows': lambda d: iter(d.find_first('A').rows),
    'term.descendents': lambda d: iter(d.find_first('A').descendents),
    'term.find': lambda d: iter(d.find_first('A').find('B')),
}


def bounds(tier):
    if tier == 'thorough':
        return dict(pairs=list(DOCS), stale=['base', 'declared', 'built'], seeds=48, triples=['base'])
    return dict(pairs=['declared', 'base', 'built', 'ident'], stale=['base', 'built'], seeds=12, triples=[])


def BOUNDS(tier):
    b = bounds(tier)
    return dict(readers=len(READERS), documents=sorted(DOCS), pairs='all ordered pairs of readers on ' + ', '.join(b['pairs']),
                iterators=len(ITERS), iterator_pairs='all, suspended and abandoned after every number of items',
                stale='every reader before every edit of ' + ', '.join(b['stale']), hash_seeds=b['seeds'])


def cases(tier):
    b = bounds(tier)
    for d in DOCS:
        for r in READERS:
            yield {'k': 'one', 'doc': d, 'r': r}
    for d in ('base', 'including', 'built'):
        for i in ITERS:
            for j in ITERS:
                yield {'k': 'iter', 'doc': d, 'i': i, 'j': j}
    for s in range(1, b['seeds'] + 1):
        yield {'k': 'seed', 'seed': s}
    for d in b['pairs']:
        for r in READERS:
            yield {'k': 'pairs', 'doc': d, 'r': r}
    for d in b['stale']:
        for n in range(len(edits(d))):
            yield {'k': 'stale', 'doc': d, 'n': n}
    for d in b['triples']:
        for r in READERS:
            for q in READERS:
                yield {'k': 'triples', 'doc': d, 'r': r, 'q': q}


def edits(name, cache={}):
    """Edits of the document, for the stale mode"""
    if name not in cache:
        rows = {'base': BASE, 'built': [['Title', 'X'], ['Section', 'S', 'p'], ['B', '1'], ['B.P', '2'], ['A', '2'], ['A.P', '5'], ['.Q', '6'],
                                        ['Section', 'T']],
                'declared': [['Declare', 'd'], ['A', '1'], ['A.P', '1'], ['Section', 'Schema', 'DataType'], ['Table', 't']]}[name]
        m = ops.Model(rows)
        cache[name] = [op for op in ops.enabled(m)]
    return cache[name]


def read(d, r):
    try:
        return attempt(lambda: obs(READERS[r](d)))
    except RecursionError:
        return ('error', 'recursion')


def everything(d):
    return {r: read(d, r) for r in READERS}


def alone(doc, cache={}):
    """What each reader gives on a fresh document"""
    if doc not in cache:
        cache[doc] = {r: read(DOCS[doc](), r) for r in READERS}
    return cache[doc]


def compare(want, got, what):
    for r in want:
        if want[r] != got[r]:
            raise Violation('%s: %s gives\n %r\nand gave on a fresh document\n %r' % (what, r, got[r], want[r]),
                            key='%s differs' % r)


def run(case, st):
    globals()['run_' + case['k']](case, st)


def run_one(case, st):
    want = alone(case['doc'])
    d = DOCS[case['doc']]()
    before = snap(d)
    for n in range(3):
        g = read(d, case['r'])
        st.step()
        if g != want[case['r']]:
            raise Violation('%s, time %d:\n %r\nfirst\n %r' % (case['r'], n + 1, g, want[case['r']]), key='repeated ' + case['r'])
    if snap(d) != before:
        raise Violation('%s changed the document\n %r\n %r' % (case['r'], before, snap(d)), key='changed by ' + case['r'])
    compare(want, everything(d), 'after ' + case['r'])
    # parsing again
    compare(want, everything(DOCS[case['doc']]()), 'a new document, after %s of another' % case['r'])
    st.step(2 * len(READERS))
    st.state((case['doc'], case['r']))
    st.outcome(want[case['r']])
    st.trace(2)


def run_pairs(case, st):
    want = alone(case['doc'])
    for q in READERS:
        d = DOCS[case['doc']]() if case['doc'] != 'declared' else declared()
        read(d, case['r'])
        read(d, q)
        g = read(d, case['r'])
        if g != want[case['r']]:
            raise Violation('%s after %s gives\n %r\nnot\n %r' % (case['r'], q, g, want[case['r']]), key='%s after %s' % (case['r'], q))
        compare(want, everything(d), 'after %s and %s' % (case['r'], q))
        st.step(3 + len(READERS))
        st.state((case['doc'], case['r'], q))
        st.trace()


def declared():
    return DOCS['declared']()


def run_triples(case, st):
    want = alone(case['doc'])
    d = DOCS[case['doc']]()
    for p in READERS:
        for r in (case['r'], case['q'], p):
            if read(d, r) != want[r]:
                raise Violation('%s differs after %s' % (r, (case['r'], case['q'], p)))
            st.step()
        st.state((case['doc'], case['r'], case['q'], p))
        st.trace()
    compare(want, everything(d), 'after all')


class End(object):
    pass


def item(it):
    r = attempt(next, it, End)
    if r[0] == 'ok':
        return End if r[1] is End else ('ok', obs(r[1]))
    return r


def drain(it):
    out = []
    while len(out) < 500:
        x = item(it)
        if x is End:
            return out
        out.append(x)
        if x[0] != 'ok':
            return out
    raise Violation('an iterator does not end')


def run_iter(case, st):
    d = DOCS[case['doc']]()
    w1 = drain(ITERS[case['i']](d))
    w2 = drain(ITERS[case['j']](d))
    want = alone(case['doc'])
    before = snap(d)
    for k in range(len(w1) + 1):
        # Suspended after k items, while another one runs to its end
        a = ITERS[case['i']](d)
        got = [item(a) for _ in range(k)]
        o = drain(ITERS[case['j']](d))
        rest = drain(a)
        if got + rest != w1 or o != w2:
            raise Violation('%s, suspended after %d items, and %s give\n %r\n %r\nnot\n %r\n %r' % (
                case['i'], k, case['j'], got + rest, o, w1, w2), key='suspended %s %s' % (case['i'], case['j']))
        # Both suspended, at all pairs of places
        for n in range(len(w2) + 1):
            a, b = ITERS[case['i']](d), ITERS[case['j']](d)
            g1 = [item(a) for _ in range(k)]
            g2 = [item(b) for _ in range(n)]
            g1 += drain(a)
            g2 += drain(b)
            if g1 != w1 or g2 != w2:
                raise Violation('%s and %s, suspended after %d and %d items, give\n %r\n %r\nnot\n %r\n %r' % (
                    case['i'], case['j'], k, n, g1, g2, w1, w2), key='suspended %s %s' % (case['i'], case['j']))
            st.step(2)
            st.state((case['doc'], case['i'], case['j'], k, n))
            st.trace()
        # Abandoned
        a = ITERS[case['i']](d)
        for _ in range(k):
            item(a)
        if hasattr(a, 'close'):
            r = attempt(a.close)
            if r[0] != 'ok':
                raise Violation('%s can not be closed after %d items: %s' % (case['i'], k, r[2]), key='close ' + case['i'])
        del a
        if snap(d) != before:
            raise Violation('%s, abandoned after %d items, changed the document' % (case['i'], k), key='abandoned ' + case['i'])
        if case['i'] == case['j']:
            compare(want, everything(d), '%s, abandoned after %d items' % (case['i'], k))
            e = DOCS[case['doc']]()
            a = ITERS[case['i']](e)
            for _ in range(k):
                item(a)
            compare(want, everything(e), '%s, suspended after %d items' % (case['i'], k))


def run_stale(case, st):
    op = edits(case['doc'])[case['n']]
    d = DOCS[case['doc']]()
    r = attempt(ops.do, d, op)
    if r[0] != 'ok':
        return
    want = everything(d)
    d = DOCS[case['doc']]()
    everything(d)
    attempt(ops.do, d, op)
    compare(want, everything(d), 'all read, then %r' % (op,))
    for q in READERS:
        d = DOCS[case['doc']]()
        read(d, q)
        attempt(ops.do, d, op)
        compare(want, everything(d), '%s, then %r' % (q, op))
        st.step(2 + len(READERS))
        st.state((case['doc'], case['n'], q))
        st.trace()


# Other processes

PROG = '''
import warnings; warnings.simplefilter('ignore')
import sys, json
sys.path[:0] = %r
from mc.checks import c16
c16.setup('quick')
out = {}
for n in sorted(c16.DOCS):
    d = c16.DOCS[n]()
    out[n] = {r: repr(c16.read(d, r)) for r in c16.READERS}
print(json.dumps(out))
'''


def run_seed(case, st):
    from mc.common import VERIF
    want = {n: {r: repr(v) for r, v in alone(n).items()} for n in DOCS}
    env = dict(os.environ, PYTHONHASHSEED=str(case['seed']))
    os.makedirs('seed', exist_ok=True)
    p = subprocess.run([sys.executable, '-c', PROG % ([os.path.dirname(os.path.dirname(os.path.realpath(__import__('metatab').__file__))), VERIF],)], env=env, cwd='seed', stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, timeout=100)
    if p.returncode:
        raise Violation('the readers failed in another process: %s' % p.stderr[-2000:].decode('utf8', 'replace'), key='process')
    got = json.loads(p.stdout.decode('utf8').splitlines()[-1])
    for n in DOCS:
        for r in READERS:
            if got[n][r] != want[n][r] and r != 'ref':
                raise Violation('%s of document %s with hash seed %d\n %s\nhere\n %s' % (r, n, case['seed'], got[n][r], want[n][r]),
                                key='hash seed %s' % r)
            st.step()
    st.state(('seed', case['seed']))
    st.add('processes')
    st.trace(len(DOCS))
