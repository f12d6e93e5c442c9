"""Writing a document and reading it back, for CSV (C03) and Lines (C04)"""
from mc import gen, ops, spec
from mc.common import Violation
from mc.impl import rows_doc, text_doc, attempt, csv_rows
from mc.snap import snap, plain

# Row alphabet for documents that are written
ALPHA = [
    ['Title', 'T'],
    ['A', '1', 'x', 'y'],
    ['Section', 'S', 'p', 'q'],
    ['A.B', '2', 'z'],
    ['.E', '4'],
    ['Section', 'T'],
    ['A', '', '', 'y', 'over'],
    ['A.p', '5'],
    ['Header', 'v', 'h', 'i'],
    ['Section', 'Root'],
    ['B.C', '6', 'w'],
    ['Section', 'S', '', 'r'],
    ['Root.B', '', 'u'],
    ['.p', '', '7'],
    ['Section', 'S'],
]

# A small declaration document, with the declarations of the bundled one for the terms below
DECL_FILE = [
    ['Section', 'DeclaredSections'],
    ['DeclareSection', 'Schema', 'DataType', 'Description'],
    ['DeclareSection', 'Resources', 'Name', 'Title'],
    ['Section', 'DeclaredTerms', 'TermValueName', 'ChildPropertyType', 'Section'],
    ['DeclareTerm', 'Description', 'description', 'sconcat', 'Root'],
    ['DeclareTerm', 'Version', '', 'scalar', 'Root'],
    ['DeclareTerm', 'Table', 'Name', 'sequence', 'Schema'],
    ['DeclareTerm', 'Table.Column', 'Name', 'sequence', 'Schema'],
    ['DeclareTerm', 'Root.Datafile', 'Url', 'sequence', 'Resources'],
]


def setup(tier):
    import csv
    with open('rt-decl.csv', 'w', newline='') as f:
        csv.writer(f).writerows(DECL_FILE)


DECL_ROWS = [
    ['Declare', 'rt-decl.csv'],
    ['Title', 'T'],
    ['Description', 'd1'],
    ['Description', 'd2'],
    ['Version', '3'],
    ['Version.Major', '1'],
    ['Section', 'Schema', 'DataType', 'Description'],
    ['Table', 't'],
    ['Table.Column', 'c', 'int', 'de'],
    ['.Note', 'n'],
    ['Section', 'Resources', 'Name', 'Title'],
    ['Datafile', 'http://u', 'nm', 'ti'],
    ['.StartLine', '1'],
    ['Section', 'Contacts', 'Email'],
    ['Creator', 'bob', 'e@x'],
    ['Creator.Org', 'o'],
]


# What is compared: values as text, empty leaves dropped, children in order for each name

def norm_term(t):
    name, value, cs = t[0], t[1], t[-1]
    value = None if value is None else (str(value).strip() or None)
    groups = {}
    for c in cs:
        c = norm_term(c)
        if c[1] is None and not c[2]:
            continue
        groups.setdefault(c[0], []).append(c)
    return (name, value, tuple((n, tuple(groups[n])) for n in sorted(groups)))


def norm_doc(c):
    return tuple((n, cols, tuple(norm_term(t) for t in ts)) for n, cols, ts in c)


def norm_dict(d):
    """Dictionary form, with text values and without what is empty"""
    if isinstance(d, dict):
        r = {k: norm_dict(v) for k, v in d.items()}
        return {k: v for k, v in r.items() if v not in (None, {}, [], '')}
    if isinstance(d, list):
        r = [norm_dict(v) for v in d]
        r = [v for v in r if v not in (None, {}, [], '')]
        return r
    return None if d is None else (str(d).strip() or None)


def collapse(d):
    """A mapping that has only a value is that value, and a list of one is its item: an empty leaf was dropped"""
    if isinstance(d, dict):
        r = {k: collapse(v) for k, v in d.items()}
        if len(r) == 1 and '@value' in r:
            return r['@value']
        return r
    if isinstance(d, list):
        r = [collapse(v) for v in d]
        return r[0] if len(r) == 1 else r
    return d


def writable(d):
    """Documents the format can express; see DESIGN.md"""
    for s in d:
        cols = [str(c).strip().lower() if c else '' for c in s.property_names]

        def ok(t, above):
            n = t.record_term_lc
            if n in above or n == 'root' or (n in ('section', 'header', 'include') and not above):
                return False
            if n.title().lower() != n:
                return False  # names are written with capitals, and this one has none, as one that starts with ß
            if n.isdigit() and int(n) < len(cols) and cols[int(n)]:
                return False  # named by a column since
            if t.term_value_name.lower() != s.default_term_value_name.lower() and t.join_lc not in s.doc.decl_terms:
                return False  # the section has several value names
            return all(ok(c, above + (n,)) for c in t.children)

        if not all(ok(t, ()) for t in s):
            return False
        for i, c in enumerate(cols):
            if number(c) is not None or set(c) & set(BAD_IN_NAMES) or c.startswith('#') or has_breaks((c,)) or c.title().lower() != c:
                return False
        if s.name.endswith('\\') or s.name.startswith('#') or has_breaks((s.name,)):
            return False
    return True


def number(c):
    try:
        return int(c)
    except ValueError:
        return None


BAD_IN_NAMES = '.:|\\'  # what separates the parts of a row in one of the formats


def has_breaks(c):
    """Whether a value or name has a line break"""
    return any(len(str(x).splitlines()) > 1 or str(x)[-1:] in '\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029' and str(x)
               for x in flat(c))


def flat(c):
    if isinstance(c, tuple):
        for e in c:
            yield from flat(e)
    elif c is not None:
        yield c


def read_csv(text):
    return rows_doc(csv_rows(text))


def check(d, st, fmt):
    """Write, read, compare, write again"""
    before = snap(d)
    a = norm_doc(snap(d, prov=False, types=False))
    st.state(a)
    if fmt == 'lines' and has_breaks(snap(d, prov=False, types=False)):
        st.add('outside_domain')
        return
    if not writable(d):
        st.add('outside_domain')
        return
    write = 'as_csv' if fmt == 'csv' else 'as_lines'
    read = read_csv if fmt == 'csv' else text_doc

    got = attempt(getattr(d, write))
    st.step()
    if got[0] != 'ok':
        raise Violation('writing the document failed: %s\n%s' % (got[2], a))
    text = got[1]
    if snap(d) != before:
        raise Violation('writing changed the document\n%s' % text)
    got = attempt(read, text)
    st.step()
    if got[0] != 'ok':
        raise Violation('reading the written document failed: %s\n%s' % (got[2], text))
    e = got[1]
    b = norm_doc(snap(e, prov=False, types=False))
    st.trace()
    st.outcome(text)
    if lower(a) != lower(b):
        raise Violation('the document read back differs\n was %s\n is  %s\n%s' % (a, b, text))
    da, db = collapse(norm_dict(plain(d.as_dict()))), collapse(norm_dict(plain(e.as_dict())))
    if da != db and next(iter(d)).name == 'Root':
        raise Violation('the dictionary form of the document read back differs\n was %s\n is  %s\n%s' % (da, db, text))
    text2 = getattr(e, write)()
    st.step()
    if text2 != text and not droppable(d) and next(iter(d)).name == 'Root':
        raise Violation('writing again gives another text\n%s\n---\n%s' % (text, text2))
    text3 = getattr(read(text2), write)()
    if text3 != text2:
        raise Violation('writing again gives another text\n%s\n---\n%s' % (text2, text3))
    return e


def droppable(d):
    """Whether the document has empty leaves, which may be dropped, or values that are not text or have padding"""

    def any_(t):
        if t.value is not None and (not isinstance(t.value, str) or t.value.strip() != t.value):
            return True
        return any((not c.value and not c.children) or any_(c) for c in t.children)

    return any(any_(t) for s in d for t in s)


def lower(c):
    """Names in lower case, and the Root section, which is the first in every document that is read, first"""
    return tuple(sorted(((n, tuple(e.lower() for e in cols), ts) for n, cols, ts in c), key=lambda s: s[0] != 'Root'))


def bounds(tier):
    return dict(depth=4, full=2, deep=3, pairs=True) if tier == 'thorough' else dict(depth=3, full=1, deep=2, pairs=False)


def BOUNDS(tier):
    b = bounds(tier)
    return dict(row_alphabet=len(ALPHA), depth=b['depth'], base_documents=6, values=len(gen.VALUES) + len(gen.LINEBREAK_VALUES),
                value_substitutions='all cells' + (' and pairs of cells' if b['pairs'] else ''), row_edits='all single', real_documents=len(gen.real_documents()),
                edit_histories='all to depth %d, one per state to depth %d' % (b['full'], b['deep']))


SECTION_FIRST = [['Section', 'S', 'p', 'q'], ['A', '1', 'x'], ['Section', 'T', 'v|w', 'a:b'], ['B', '2', 'k', 'l'], ['Section', 'Root'],
                 ['Title', 't']]


REAL = ('almost-everything', 'children3', 'yaml', 'template', 'datapackage_ex1', 'nested')  # of which every near edit is made
_real = {}


def real(case):
    if not _real:
        _real.update(gen.real_documents())
    rows = _real[case['real']]
    if 'edit' in case:
        rows = [r for i, r in enumerate(gen.near_edits(rows)) if i == case['edit']][0]
    return rows


def cases(tier):
    b = bounds(tier)
    for seq in gen.sequences(ALPHA, b['depth']):
        yield {'rows': seq}
    yield {'rows': [['Declare', 'metatab-latest']] + DECL_ROWS[1:]}
    for base in (gen.BASE, gen.BASE2, SECTION_FIRST, DECL_ROWS, gen.LARGE, gen.WORDS):
        yield {'rows': base}
        for rows in gen.row_edits(base):
            if rows and not any(r[0] == 'Declare' for r in rows[1:]):
                yield {'rows': rows}
        values = ('', 'a|b', '#h', 'a\\') if base in (gen.LARGE, gen.WORDS) else gen.VALUES + gen.LINEBREAK_VALUES
        subs = [(r, c, v) for r, c in gen.cell_sites(base, 1) for v in values
                if base[r][0] != 'Declare']
        for s in subs:
            yield {'rows': gen.substituted(base, [s])}
        if base is gen.BASE:
            for r, c in ((1, 1), (3, 2), (4, 3), (9, 1), (11, 1), (12, 4), (7, 1), (7, 3)):
                for v in gen.MORE_VALUES:
                    yield {'rows': gen.substituted(base, [(r, c, v)])}
        if b['pairs'] and base not in (DECL_ROWS, gen.LARGE, gen.WORDS):
            short = [s for s in subs if s[2] in ('', 'a|b', '\\|', 'a\\', '|', ':', '#h', '"q"', 'a\nb')]
            for i, x in enumerate(short):
                for y in short[i + 1:]:
                    if x[:2] != y[:2] and abs(x[0] - y[0]) < 3:
                        yield {'rows': gen.substituted(base, [x, y])}
    for n, rows in gen.real_documents().items():
        yield {'real': n}
        for i, _ in enumerate(gen.near_edits(rows) if n in REAL or tier == 'thorough' else ()):
            yield {'real': n, 'edit': i}
    for k, h, m in ops.histories(ops.STARTS + [gen.BASE], b['full'], b['deep']):
        if h:
            yield {'start': k, 'ops': h}
    # Values set through the interface
    for v in gen.VALUES + gen.LINEBREAK_VALUES + [5, 1.5]:
        for op in (['new_term', 'Root', 'A', v, {}], ['new_term', 'S', 'A', 'a', {'p': v, 'z': v}],
                   ['set_value', ['S', 0], v], ['set_item', ['S', 0], 'p', v], ['set_item', ['S', 1], 'zz', v],
                   ['set_item', ['Root', 0], 'p', v], ['new_child', ['S', 1, 0], 'k', v, {}],
                   ['get_or_new_child', ['S', 0], 'm', v, {'p': v}], ['new_section', 'N', [str(v), 'w']]):
            yield {'start': 1, 'ops': [op]}
            for op2 in (['new_child', ['S', 0], 'P', 'k', {'r': 'l'}], ['remove_arg', 'S', 'p'], ['add_arg', 'S', 'k', True],
                        ['sort_sections', ['s']]):
                yield {'start': 1, 'ops': [op, op2]}


def in_domain(rows):
    for r in rows:
        n = r[0].strip().lower() if r else ''
        if n in ('section', 'root.section') and any(c.strip().isdigit() for c in r[2:]):
            return False
    return True


def build(case, st):
    if 'real' in case:
        case = {'rows': real(case)}
    if 'rows' in case:
        if not in_domain(case['rows']):
            st.add('outside_domain')
            return None
        got = attempt(rows_doc, case['rows'])
        if got[0] != 'ok':
            st.add('not_parsed')  # C01 decides which documents parse
            return None
        return got[1]
    d = rows_doc((ops.STARTS + [gen.BASE])[case['start']])
    for op in case['ops']:
        got = attempt(ops.do, d, op)
        st.step()
        if got[0] != 'ok':
            raise Violation('operation %s raised %s' % (op, got[2]))
    return d


def equal(d, e):
    """Whether document e, which was read back, is document d; None if the format can not express d"""
    if not writable(d):
        return None
    a, b = (lower(norm_doc(snap(x, prov=False, types=False))) for x in (d, e))
    return a == b
