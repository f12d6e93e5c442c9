"""C20: a document can be loaded in parts.

All row sequences up to a depth, split in two or three parts at every combination of Section rows (and at the end), and all small
sequences with declarations; the parts are loaded one after the other in a document through rows, CSV text, Lines text, files and
term parsers, with edits in between. The result is compared with the reference model of the parts, and with the
document that the implementation gives for all the rows at once. A part that fails must leave what was loaded before it as it was.
"""
import csv
import io
import itertools

from mc import gen, spec
from mc.checks.c07 import obs_decl, obs_sections
from mc.common import Violation
from mc.impl import MetatabDoc, MetatabRowGenerator, TextRowGenerator, attempt, rows_doc
from mc.snap import consistent, plain, snap

LEVEL = 'model_checking'

ROWSET = [
    ['Title', 'T'],
    ['Section', 'S', 'p', 'q'],
    ['Section', 's'],
    ['Section', 'Root', 'r'],
    ['A', '1', 'x', 'y'],
    ['A.B', 'b', 'u'],
    ['.C', 'c', '', 'w'],
    ['Header', 'V', 'h1'],
]
DECL = [
    ['Section', 'DeclaredSections'],
    ['DeclareSection', 'S', 'dp', 'dq'],
    ['DeclareSection', 'X', 'x 1', 'y'],
    ['Section', 'DeclaredTerms', 'TermValueName', 'ChildPropertyType', 'Section', 'Synonym', 'InheritsFrom'],
    ['DeclareTerm', 'A', 'AName', 'sequence', 'S'],
    ['DeclareTerm', 'A.B', 'BName', 'scalar', 'S'],
    ['DeclareTerm', 'Alias', '', '', '', 'Root.A'],
    ['DeclareTerm', 'View', 'VName', '', 'S', '', 'Root.A'],
]
DROWS = [['Declare', 'd20.csv'], ['Section', 'S'], ['Section', 'S', 'p'], ['A', '1', 'x'], ['Alias', '2', 'y'], ['View', '3'], ['View.B', 'b'], ['A.B', 'z']]
# Edits between parts, and the rows that do the same
EDITS = [('term', [['Section', 'S'], ['New', 'n']]), ('rootterm', [['Section', 'Root'], ['New', 'n']]), ('section', [['Section', 'New', 'k', 'l']]),
         ('remove', None), ('child', None)]
SOURCES = ['rows', 'csv', 'terms', 'file', 'lines']


def setup(tier):
    with open('d20.csv', 'w', newline='') as f:
        csv.writer(f).writerows(DECL)


def bounds(tier):
    return dict(rows=6, declared=4, edited=5) if tier == 'thorough' else dict(rows=5, declared=3, edited=4)


def BOUNDS(tier):
    return dict(bounds(tier), row_alphabet=len(ROWSET), declared_alphabet=len(DROWS), parts=3, sources=SOURCES, edits=[e[0] for e in EDITS])


def splits(rows, parts=3):
    at = [i for i in range(len(rows) + 1) if i == len(rows) or (rows[i] and rows[i][0].strip() == 'Section')]
    for k in range(1, parts):
        yield from itertools.combinations_with_replacement(at, k)


def cases(tier):
    b = bounds(tier)
    for rows in gen.sequences(ROWSET, b['rows']):
        if any(r[0] == 'Section' for r in rows) or len(rows) < 3:
            yield dict(k='split', rows=rows, sources=len(rows) < b['rows'] - 1, parts=3 if len(rows) < b['rows'] else 2)
    for rows in (gen.BASE, gen.BASE2, gen.WORDS):
        yield dict(k='split', rows=rows, sources=True, parts=3)
    yield dict(k='split', rows=gen.LARGE, sources=False, parts=2)
    for n, rows in gen.real_documents().items():
        for at in splits(rows, 3 if tier == 'thorough' or len(rows) < 30 else 2):
            yield dict(k='real', rows=rows, at=at)
    for rows in gen.sequences(DROWS, b['declared']):
        yield dict(k='decl', rows=rows)
    for rows in gen.sequences(ROWSET[:6], b['edited'], 1):
        if any(r[0] == 'Section' for r in rows):
            yield dict(k='edit', rows=rows)


def source(kind, rows):
    if kind == 'rows':
        return lambda d: d.load_rows(MetatabRowGenerator([list(r) for r in rows]))
    if kind == 'terms':
        def f(d):
            from metatab import TermParser
            return d.load_terms(TermParser(MetatabRowGenerator([list(r) for r in rows]), doc=d))
        return f
    if kind in ('csv', 'file'):
        def g(d):
            with open('part.csv', 'w', newline='') as f:
                csv.writer(f).writerows(rows)
            if kind == 'file':
                return d.load_rows('part.csv')
            with open('part.csv', newline='') as f:
                return d.load_rows(MetatabRowGenerator(csv.reader(f)))
        return g
    text = lines(rows)
    return lambda d: d.load_rows(TextRowGenerator(text))


def lines(rows):
    return '\n'.join('%s: %s' % (r[0], '|'.join(r[1:])) for r in rows)


def noprov(c):
    """Without rows and files; the section of each term is kept"""

    def t(x):
        return x[:4] + (x[6],) + (tuple(t(e) for e in x[-1]),)

    return tuple((n, cols, tuple(t(e) for e in ts)) for n, cols, ts in c)


def nofile(c):
    def t(x):
        return x[:7] + (tuple(t(e) for e in x[-1]),)

    return tuple((n, cols, tuple(t(e) for e in ts)) for n, cols, ts in c)


def model(parts, files=None):
    """Canonical form after all parts, or the part that fails"""
    doc = spec.Doc()
    for i, p in enumerate(parts):
        try:
            spec.Parser(doc, files).parse(p, path='x.csv' if files else None)
        except spec.SpecError as e:
            return ('error', i, e.kind), doc
    return ('ok', spec.canon(doc)), doc


def load(parts, kind, st, between=None):
    d = MetatabDoc()
    for i, p in enumerate(parts):
        before = [(t, snap_t(t)) for s in d for t in s], {s.name.lower(): list(s.property_names) for s in d}
        r = attempt(source(kind, p), d)
        st.step()
        if r[0] != 'ok':
            # Rows of the part before the bad one may have continued sections, but they can not reach terms of other parts
            for t, s in before[0]:
                if t.doc is not d or t not in d.terms or snap_t(t) != s:
                    raise Violation('a part that fails changed %r, which was loaded before: %s' % (t, parts), key='failed part')
            consistent(d, declared=any(r[0] == 'Declare' for p in parts for r in p))
            return ('error', i, r[1]), d
        if r[1] is not d:
            raise Violation('loading does not return the document')
        if between:
            between(i, d)
    return ('ok', d), d


def snap_t(t):
    from mc.snap import snap_term
    return snap_term(t)


def run(case, st):
    rows = case['rows']
    if case['k'] == 'split':
        for at in splits(rows, case['parts']):
            parts = [rows[i:j] for i, j in zip((0,) + at, at + (len(rows),))]
            want, mdoc = model(parts)
            st.state(want)
            for kind in (SOURCES if case['sources'] and len(at) == 1 else ('rows',)):
                if kind == 'lines' and any(not c.strip() for r in rows for c in r[:1]):
                    continue
                check(parts, want, kind, st)
            whole = attempt(rows_doc, rows)
            if want[0] == 'ok' and (whole[0] != 'ok' or noprov(snap(whole[1])) != noprov(want[1])):
                raise Violation('parts %s: all rows at once give %s, the parts %s' % (parts, whole[1] if whole[0] != 'ok' else snap(whole[1]), want[1]))
            st.trace()
    elif case['k'] == 'real':
        from mc.checks.c07 import published
        at = tuple(case['at'])
        parts = [rows[i:j] for i, j in zip((0,) + at, at + (len(rows),))]
        want, mdoc = model(parts, published()[0])
        st.state(want)
        d = check(parts, want, 'file', st, prov=False)
        whole = attempt(rows_doc, rows)
        if want[0] == 'ok':
            if obs_decl(d.decl_terms) != obs_decl(mdoc.decl_terms) or obs_sections(d.decl_sections) != obs_sections(mdoc.decl_sections):
                raise Violation('parts %s: the declarations are not those of all rows' % (parts,), key='declared')
            if plain(d.as_dict()) != plain(spec.doc_dict(mdoc)):
                raise Violation('parts %s: the dictionary is %s, not %s' % (parts, d.as_dict(), spec.doc_dict(mdoc)))
            if whole[0] != 'ok' or noprov(snap(whole[1])) != noprov(want[1]):
                raise Violation('parts %s: all rows at once give %s, the parts %s' % (parts, whole[1] if whole[0] != 'ok' else snap(whole[1]), want[1]))
    elif case['k'] == 'decl':
        for i in range(len(rows) + 1):
            parts = [rows[:i], rows[i:]]
            if i and i < len(rows) and rows[i][0] not in ('Section', 'Declare'):
                continue
            want, mdoc = model(parts, {'d20.csv': DECL})
            st.state(want)
            d = check(parts, want, 'file', st, prov=False)
            if want[0] == 'ok':
                wd = plain(spec.doc_dict(mdoc))
                for have, mod in ((obs_decl(d.decl_terms), obs_decl(mdoc.decl_terms)), (obs_sections(d.decl_sections), obs_sections(mdoc.decl_sections))):
                    if have != mod:
                        raise Violation('parts %s: declared is\n %s\nnot\n %s' % (parts, have, mod), key='declared')
                for s in ('s', 'X', 'Root'):
                    if list(d.section_args(s)) != list(mdoc.decl_sections.get(s.lower(), {}).get('args', [])):
                        raise Violation('parts %s: the declared columns of %s are %s' % (parts, s, d.section_args(s)), key='declared')
                if plain(d.as_dict()) != wd:
                    raise Violation('parts %s: the dictionary is %s, not %s' % (parts, d.as_dict(), wd))
    else:
        for at in splits(rows, 2):
            i = at[0]
            for name, eq in EDITS:
                edit(rows[:i], rows[i:], name, eq, st)


def check(parts, want, kind, st, prov=True):
    got, d = load(parts, kind, st)
    st.trace()
    have = ('ok', snap(d)) if got[0] == 'ok' else got
    st.outcome(have)
    a, b = have, want
    if have[0] == want[0] == 'ok':
        f = nofile if prov else noprov
        a, b = f(have[1]), f(want[1])
        consistent(d, declared=not prov)
    if a != b:
        raise Violation('parts %s by %s\n want %s\n got  %s' % (parts, kind, want, have), key='parts ' + kind)
    return d


def edit(a, b, name, eq, st):
    """Rows, an edit, more rows"""
    parts = [a, b]
    if model(parts)[0][0] != 'ok':
        return
    did = []

    def between(i, d):
        if i != 0:
            return
        if name == 'term' and 's' in d:
            d['S'].new_term('New', 'n')
            did.append(eq)
        elif name == 'rootterm':
            d['Root'].new_term('New', 'n')
            did.append(eq)
        elif name == 'section':
            d.new_section('New', ['k', 'l'])
            did.append(eq)
        elif name == 'remove' and d.terms:
            t = [t for s in d for t in s][-1]
            d.remove_term(t)
            did.append([])
        elif name == 'child' and d.terms:
            t = [t for s in d for t in s][-1]
            t.new_child('Ch', 'v')
            did.append([])

    got, d = load(parts, 'rows', st, between)
    if not did:
        return
    st.trace()
    # The same with the model
    mdoc = spec.Doc()
    spec.Parser(mdoc).parse(a)
    if name in ('remove', 'child'):
        s = [s for s in mdoc.sections.values() if s.terms][-1]
        if name == 'remove':
            s.terms.pop()
        else:
            t = spec.T('ch', 'v', None, None, None, s.vname)
            t.sec = s.name
            s.terms[-1].children.append(t)
    else:
        spec.Parser(mdoc).parse(eq)
    spec.Parser(mdoc).parse(b)
    want = noprov(spec.canon(mdoc))
    st.state(want)
    if got[0] != 'ok':
        raise Violation('edit %s between %s: %s' % (name, parts, got[1:]), key='edit ' + name)
    have = noprov(snap(d))
    # A new term has the default value name of its section
    if have != want:
        raise Violation('edit %s between %s\n want %s\n got  %s' % (name, parts, want, have), key='edit ' + name)
    consistent(d)
