"""C01: rows parse to exactly the tree that the row grammar defines.

Every row sequence up to a depth over an alphabet of all row kinds, and every row edit and cell substitution of three
larger documents, is parsed by the implementation and by the reference model; the two documents must be equal in
every observable, and the views of the implementation's document must agree with each other.
"""
from itertools import product, chain

from mc import gen, spec
from mc.common import Violation
from mc.impl import rows_doc, attempt
from mc.snap import snap, consistent

LEVEL = 'model_checking'

ALPHA = [
    ['A', '1'],
    ['B', '2'],
    ['A.B', '3'],
    ['.E', '4'],
    ['Section', 'S', 'p', 'q'],
    ['A', '1', 'x', 'y'],
    ['Section', 'T'],
    ['Header', 'v', 'h', 'i'],
    ['Section', 'S'],
    ['Section', 'Root'],
    ['B.C', '5', 'z'],
    ['A', '', '', 'y'],
    ['.E', '6', 'w'],
    ['A.A', '7'],
    ['E.F', '8'],
    ['Root.B', '9', '', '', 'u'],
    ['Section', 'S', '', 'r'],
    ['# comment', 'x'],
    [''],
    ['A.B', '', 'x'],
]

# A second alphabet, of what ends or redirects parsing
ALPHA2 = [
    ['A', '1', 'x', 'y'],
    ['A.B', '2'],
    ['.E', '3'],
    ['Section', 'S', 'p', 'q'],
    ['Section', ''],
    ['Section', 's', 'P2'],
    ['Header', '', 'h', 'i'],
    ['Include', 'nofile.csv'],
    ['Include', ''],
    ['P.Q', '1'],
    ['A.B', '2', '', 'k'],
    ['Root.Section', 'U', 'm'],
    [],
    ['  #x'],
    ['Header', 'w'],
    ['Header', 'V', '', 'j', ''],
]

# A third, of names that contain keywords
ALPHA3 = [['.Section', 'x', 'y'], ['.Header', 'h', 'k'], ['.Include', 'no.csv'], ['A', '1', 'x'], ['A.Section', 's'], ['A.Header', 's', 't'],
          ['Section.B', '1', '2'], ['Header.B', '1'], ['Section', 'S', 'p'], ['root.header', 'v', 'w'], ['.E', '1'], ['Root.Include', ''],
          ['Include.B', '1'], ['SECTION', 's'], ['A.Include', 'no.csv', 'z'], ['Header', 'w', 'Section']]


def BOUNDS(tier):
    d, d2, n = bounds(tier)
    return dict(row_alphabet=len(ALPHA), depth=d, second_alphabet=len(ALPHA2), second_depth=d2, third_alphabet=len(ALPHA3), third_depth=4 if tier == 'thorough' else 3,
                base_documents=4, cell_substitutions=n, values=len(gen.VALUES) + len(NAMES), row_edits='all single')


def bounds(tier):
    return (5, 5, 2) if tier == 'thorough' else (4, 4, 1)


NAMES = ['A', 'A.B', '.E', 'Table', 'Table.Column', '.Unit', 'Section', 'Header', '# c', ' ', 'Creator.Tel', 'No.Such']


def cases(tier):
    d, d2, nsub = bounds(tier)
    for seq in gen.sequences(ALPHA2, d2):
        yield {'rows': seq}
    for seq in gen.sequences(ALPHA, d):
        yield {'rows': seq}
    for seq in gen.sequences(ALPHA3, 4 if tier == 'thorough' else 3):
        yield {'rows': seq}
    for base in (gen.BASE, gen.BASE2, gen.LARGE, gen.WORDS):
        yield {'rows': base}
        for rows in gen.row_edits(base):
            yield {'rows': rows}
        subs = []
        for r, c in gen.cell_sites(base):
            for v in (NAMES if c == 0 else ('', 'x', '0', '#h') if base in (gen.LARGE, gen.WORDS) else gen.VALUES + gen.LINEBREAK_VALUES):
                subs.append((r, c, v))
        for s in subs:
            yield {'rows': gen.substituted(base, [s])}
        if base is gen.BASE:
            for r, c in ((1, 1), (3, 2), (4, 3), (9, 1), (11, 1), (12, 4), (7, 1), (7, 3)):
                for v in gen.MORE_VALUES:
                    yield {'rows': gen.substituted(base, [(r, c, v)])}
        if nsub > 1 and base is not gen.LARGE and base is not gen.WORDS:
            short = [s for s in subs if s[1] == 0 or s[2] in ('', 'x', '0', 'Root', '#h', 'a.b')]
            for i, a in enumerate(short):
                for b in short[i + 1:]:
                    if a[:2] != b[:2]:
                        yield {'rows': gen.substituted(base, [a, b])}


def in_domain(rows):
    """Documents the property is about"""
    parent = False
    for r in rows:
        if not r or not r[0].strip() or r[0].strip().startswith('#'):
            continue
        name = r[0].strip()
        if name.count('.') > 1:
            return False
        n, p = spec.split(name)
        if not n or n == 'root' or n.isdigit():
            return False
        if n == 'declare':
            return False
        if p == '' and n in ('section', 'header', 'include') and not parent:
            return False  # An elided keyword without a parent
        if p in (None, 'root'):
            parent = n not in ('section', 'include') and (parent or n != 'header')
    return True


def run(case, st):
    rows = case['rows']
    if not in_domain(rows):
        st.add('outside_domain')
        return

    def on_state(p):
        st.state(spec.canon(p.doc) + (p.section.name, p.section.vname, p.parent and p.parent.name,
                                      tuple(sorted(p.by_name))))

    doc = spec.Doc()
    try:
        spec.Parser(doc, on_state=on_state).parse(rows)
        want = ('ok', strip_file(spec.canon(doc)))
    except spec.SpecError as e:
        want = ('error', e.kind)
    st.step(doc.steps)

    got = attempt(rows_doc, rows)
    if got[0] == 'ok':
        d = got[1]
        have = ('ok', strip_file(snap(d)))
    else:
        have = got[:2]
    st.trace()
    st.outcome(have)

    if have != want:
        raise Violation('parsed document differs\n want %s\n got  %s %s' % (want, have, got[2:]))

    if got[0] == 'ok':
        consistent(d)
        files = set(t.file_name for t in d.all_terms)
        if len(files) > 1:
            raise Violation('terms of one document have different file names %s' % files)
        for s in d:
            for t in s:
                check_names(t, 'root')


def check_names(t, parent):
    if t.join_lc != '%s.%s' % (parent, t.record_term_lc) or t.qualified_term != t.join_lc:
        raise Violation('qualified name of %r is %s, its parent is %s' % (t, t.join_lc, parent))
    for c in t.children:
        check_names(c, t.record_term_lc)


def strip_file(c):
    def term(t):
        return t[:7] + (tuple(term(x) for x in t[8]),)

    return tuple((n, cols, tuple(term(t) for t in ts)) for n, cols, ts in c)
