"""C02: names are insensitive to case and surrounding whitespace; values keep theirs.

Every re-spelling of a fixed set is applied to every cell, to every pair of cells (in the base documents) and to all
cells of a document, and the result is compared with what the reference model gives for the unchanged document. Then every lookup is
made with every spelling of the name.
"""
import os

from mc import gen, spec
from mc.common import Violation
from mc.impl import rows_doc, attempt
from mc.snap import snap, consistent

LEVEL = 'model_checking'

ALPHA = [
    ['Alpha', 'v One'],
    ['Alpha.Beta', 'Two'],
    ['.Gamma', 'Three  x'],
    ['Section', 'Sec', 'Prop', 'Qual'],
    ['Delta', 'Four', 'P v', 'Q'],
    ['Header', 'Label', 'Prop', 'Hh'],
    ['Delta.Beta', 'Five', 'w'],
    ['Section', 'Sec'],
    ['Section', 'Root'],
    ['Root.Alpha', 'Six', '', 'Qv'],
]

DECL = [
    ['DeclareSection', 'Schema', 'DataType', 'Note'],
    ['Section', 'DeclaredTerms', 'TermValueName', 'ChildPropertyType', 'Section', 'Synonym', 'InheritsFrom'],
    ['DeclareTerm', 'Table', 'Name', 'sequence', 'Schema', '', ''],
    ['DeclareTerm', 'Table.Column', 'Name', 'sequence', 'Schema', '', ''],
    ['DeclareTerm', 'Root.View', 'Name', 'sequence', 'Schema', '', 'Root.Table'],
    ['DeclareTerm', 'Tbl', '', '', '', 'Root.Table', ''],
    ['DeclareTerm', 'Title', 'TheTitle', 'scalar', 'Root', '', ''],
]
DDOC = [
    ['Title', 'T x'],
    ['Section', 'Schema', 'DataType', 'Note'],
    ['Tbl', 't1'],
    ['Table.Column', 'c1', 'Int', 'n'],
    ['View', 'v1', 'Dt'],
    ['View.Column', 'c2'],
    ['.Unit', 'M'],
]

BASES = [gen.BASE, gen.BASE2, gen.LARGE, gen.WORDS]


def swap(s):
    return s.swapcase()


def alt(s):
    return ''.join(c.upper() if i % 2 else c.lower() for i, c in enumerate(s))


NAME = {'lower': str.lower, 'upper': str.upper, 'swap': swap, 'alt': alt,
        'lead': lambda s: ' ' + s, 'trail': lambda s: s + '  ', 'tabs': lambda s: '\t' + s + '\t',
        'dot': lambda s: s.replace('.', ' . '), 'all': lambda s: '  ' + alt(s).replace('.', '\t. ') + ' '}
VALUE = {'lead': lambda s: ' ' + s, 'trail': lambda s: s + '  ', 'tabs': lambda s: '\t' + s + '\t'}


def is_name(row, c):
    n = row[0].strip().lower()
    if c == 0:
        return not n.startswith('#')
    return n in ('section', 'header')


def is_decl_name(row, c):
    n = row[0].strip().lower()
    if c == 0:
        return True
    if n == 'declareterm':
        return c != 3
    return True


def edits(rows, name=is_name):
    """Single re-spellings: (row, col, name of the re-spelling)"""
    for r, row in enumerate(rows):
        for c, cell in enumerate(row):
            if not cell:
                continue
            for k in (NAME if name(row, c) else VALUE):
                if k == 'dot' and '.' not in cell:
                    continue
                if name(row, c) and k in ('upper', 'swap', 'alt', 'all') and cell.upper().lower() != cell.lower():
                    continue  # Not a change of case only, as of ß
                yield (r, c, k)
        for k in ('blank', 'spaces'):
            yield (r, -1, k)


def apply(rows, eds, name=is_name):
    rows = [list(r) for r in rows]
    orig = [list(r) for r in rows]
    for r, c, k in eds:
        if c == -1:
            rows[r] = rows[r] + (['', ''] if k == 'blank' else ['  ', '\t'])
        else:
            rows[r][c] = (NAME if name(orig[r], c) else VALUE)[k](rows[r][c])
    return rows


def whole(rows, name=is_name):
    """One re-spelling on all cells where it applies"""
    for k in list(NAME) + ['blank', 'spaces']:
        es = [(r, c, kk) for r, c, kk in edits(rows, name) if kk == k]
        if es:
            yield es
    yield [(r, c, 'all' if name(rows[r], c) else 'tabs') for r, row in enumerate(rows) for c, cell in enumerate(row) if cell and cell.upper().lower() == cell.lower()] + \
          [(r, -1, 'spaces') for r in range(len(rows))]


def bounds(tier):
    return (4, True) if tier == 'thorough' else (3, False)


def BOUNDS(tier):
    d, pairs = bounds(tier)
    return dict(row_alphabet=len(ALPHA), depth=d, single_cell_respellings='all', whole_document_respellings='all',
                pairs_in_base_documents='all' if pairs else 'all of cells that are names', respellings=len(NAME) + 2)


def cases(tier):
    d, pairs = bounds(tier)
    for base in range(len(BASES)):
        yield {'lookup': base}
    for seq in gen.sequences(range(len(ALPHA)), d):
        rows = [ALPHA[i] for i in seq]
        for es in whole(rows):
            yield {'seq': seq, 'edits': es}
        if len(seq) <= 3:
            for e in edits(rows):
                yield {'seq': seq, 'edits': [e]}
    for b, base in enumerate(BASES):
        es = list(edits(base))
        for e in es:
            yield {'base': b, 'edits': [e]}
        if base in (gen.LARGE, gen.WORDS):
            sel = []
        elif pairs:
            sel = es
        else:
            sel = [e for e in es if e[1] >= 0 and is_name(base[e[0]], e[1]) and e[2] in ('upper', 'alt', 'trail', 'dot')]
        for i, x in enumerate(sel):
            for y in sel[i + 1:]:
                if x[:2] != y[:2]:
                    yield {'base': b, 'edits': [x, y]}
        for w in whole(base):
            yield {'base': b, 'edits': w}
    for n, rows in gen.real_documents().items():
        for w in whole(rows):
            yield {'real': n, 'edits': w}
        for e in edits(rows) if n in ('yaml', 'template', 'schema', 'resources') else ():
            if e[2] in ('upper', 'all', 'tabs', 'spaces'):
                yield {'real': n, 'edits': [e]}
    de = list(edits(DECL, is_decl_name))
    for e in de:
        yield {'decl': [e], 'edits': []}
    for w in whole(DECL, is_decl_name):
        yield {'decl': w, 'edits': []}
        for w2 in whole(DDOC):
            yield {'decl': w, 'edits': w2}
    for e in edits(DDOC):
        yield {'decl': [], 'edits': [e]}


def fold(c):
    def term(t):
        return t[:6] + (t[6].lower(),) + (tuple(term(x) for x in t[8]),)

    return tuple((n.lower(), tuple(e.lower() for e in cols), tuple(term(t) for t in ts)) for n, cols, ts in c)


def run(case, st):
    if 'lookup' in case:
        return lookups(BASES[case['lookup']], st)

    if 'decl' in case:
        return declared(case, st)

    rows = [ALPHA[i] for i in case['seq']] if 'seq' in case else BASES[case['base']] if 'base' in case else None

    files = None
    if 'real' in case:
        from mc.checks.c07 import published
        files, docs = published()
        rows = docs[case['real']]
    doc = spec.Doc()
    try:
        spec.Parser(doc, files).parse(rows, path='x.csv' if files else None)
        want = ('ok', fold(spec.canon(doc)))
    except spec.SpecError as e:
        want = ('error', e.kind)
    st.step(doc.steps)
    st.state(want)

    got = attempt(rows_doc, apply(rows, case['edits']))
    have = ('ok', fold(snap(got[1]))) if got[0] == 'ok' else got[:2]
    st.trace()
    st.outcome(have)
    if want != have:
        raise Violation('re-spelled document differs\n rows %s\n want %s\n got  %s %s' % (
            apply(rows, case['edits']), want, have, got[2:]))
    if got[0] == 'ok':
        # the spelling of the section names is that of the first row that names it
        consistent(got[1], declared=bool(files))


def write(name, rows):
    import csv
    with open(name, 'w', newline='') as f:
        csv.writer(f).writerows(rows)


def declared(case, st):
    from metatab import MetatabDoc

    drows, rows = DECL, [['Declare', 'd2.csv']] + DDOC
    doc = spec.Doc()
    spec.Parser(doc, files={'d2.csv': drows}).parse(rows, path='m.csv')
    want = fold(spec.canon(doc))
    st.step(doc.steps)
    st.state(want)

    write('d2.csv', apply(DECL, case['decl'], is_decl_name))
    write('m.csv', [['Declare', 'd2.csv']] + apply(DDOC, case['edits']))
    got = attempt(MetatabDoc, os.path.abspath('m.csv'))
    st.trace()
    if got[0] != 'ok':
        raise Violation('declared document with re-spelled names fails: %s' % (got,))
    have = fold(snap(got[1]))
    st.outcome(have)
    if have != want:
        raise Violation('document with re-spelled declarations differs\n want %s\n got  %s' % (want, have))
    d = got[1]
    for sp in ('Root.Table', 'root.table', 'TABLE', ' table'):
        found = [t.value for t in d.find(sp.strip())]
        if sorted(found) != ['t1', 'v1']:
            raise Violation('find(%r) with re-spelled declarations gives %s' % (sp, found))


def keeps(f):
    return lambda s: f(s) if f(s).lower() == s.lower() else s


SPELL = [keeps(f) for f in (str.lower, str.upper, swap, alt, str.title, lambda s: s)]


def reading(t, n):
    """What each way of reading a property gives"""
    return [(k, v if k != 'ok' else v.value if hasattr(v, 'record_term') else v) for k, v in (attempt(f)[:2] for f in (
        lambda: t[n], lambda: t.get(n), lambda: t.get_value(n), lambda: t.get_value(n, 'dflt'), lambda: n in t,
        lambda: t.find_first(n), lambda: t.find_first_value(n), lambda: [c.value for c in t.find(n)]))]


def lookups(rows, st):
    d = rows_doc(rows)
    for s in list(d):
        for f in SPELL:
            n = f(s.name)
            st.trace()
            st.step()
            if d[n] is not s or d.get_section(n) is not s or n not in d or d.get_or_new_section(n) is not s:
                raise Violation('section %r is not found as %r' % (s.name, n))
            for t in s:
                for g in SPELL:
                    q = g(t.record_term)
                    want = [x for x in s if x.record_term_lc == t.record_term_lc]
                    for name in (q, g('Root.' + t.record_term), g('*.' + t.record_term)):
                        st.trace()
                        got = [x for x in d.find(name, section=n)]
                        if name.startswith('*'):
                            got = [x for x in got if x.parent is d.root or x.parent is None or x.parent.term_is('root.root')]
                        if got != want:
                            raise Violation('find(%r, section=%r) gives %s, expected %s' % (name, n, got, want))
                        if not name.startswith('*') and (s.find(name) != want or s[name] is not want[0] or
                                                         s.get_term(name) is not want[0] or
                                                         s.find_first(name) is not want[0] or
                                                         s.find_first_value(name) != want[0].value):
                            raise Violation('section lookup of %r differs' % name)
                        if not t.term_is(name):
                            raise Violation('%r is not %r' % (t, name))
                    st.state((n, q))

    def props(t):
        for n in ('name', 'value', 'url', 'no such', 'title', '@value', 'schema', 'x-y', t.term_value_name):
            base = reading(t, n.lower())
            for g in SPELL:
                st.trace()
                if reading(t, g(n)) != base:
                    raise Violation('reading %r of %r gives %s, and as %r %s' % (n.lower(), t, base, g(n), reading(t, g(n))))
        for c in t.children:
            first = [x for x in t.children if x.record_term_lc == c.record_term_lc]
            for g in SPELL:
                n = g(c.record_term)
                st.trace()
                st.step()
                st.state((t.value, n))
                if n.lower() == t.term_value_name.lower():
                    continue
                if t[n] is not first[0] or t.get(n) is not first[0] or t.get_value(n) != first[0].value or \
                        list(t.find(n)) != first or t.find_first(n) is not first[0] or \
                        t.find_first_value(n) != first[0].value or n not in t:
                    raise Violation('child %r of %r is not found as %r' % (c, t, n))
                q = g(t.record_term + '.' + c.record_term)
                if t.find_first(q) is not first[0] or list(t.find(q)) != first:
                    raise Violation('child %r of %r is not found as %r' % (c, t, q))
                allq = [x for x in d.find('*.*') if x.join_lc == c.join_lc]
                if d.find(q) != allq:
                    raise Violation('find(%r) gives %s, expected %s' % (q, d.find(q), allq))
            props(c)

    for s in d:
        for t in s:
            props(t)
    consistent(d)
