"""C18: schema cleanup removes only unused columns and empty properties.

All documents of a bounded space of Schema sections (column names of the section, from a Section row, a Header row or a
continued section; tables and columns with absent, blank, whitespace and non-blank properties, in cells, in child rows or set through the
API; nested and repeated properties; tables without columns) are cleaned. The result must be the document that a model
computes from the description, cleaning again must change nothing, and the document must read back from CSV and Lines with
the same properties.
"""
import itertools
import json

from mc.common import Violation
from mc.impl import attempt, rows_doc, text_doc, csv_rows, MetatabDoc
from mc.snap import snap, consistent

LEVEL = 'model_checking'

HEADS = [
    [['Section', 'Schema']],
    [['Section', 'Schema', 'DataType']],
    [['Section', 'Schema', 'DataType', 'Description']],
    [['Section', 'schema', 'Description', 'datatype', 'Width']],
    [['Section', 'Schema', 'DataType', '', 'Width']],
    [['Section', 'SCHEMA', 'Width']],
    [['Section', 'Schema', 'Note', 'Width', 'DataType', 'Other']],
    [['Section', 'Schema', 'Width'], ['Header', 'lab', 'Note', 'DataType', 'Width']],
    [['Section', 'Schema', 'Description'], ['Section', 'Other'], ['Section', 'Schema', 'Note', 'Width']],
    [['Section', 'Schema', 'Width'], ['Header', 'lab', 'Note', 'DataType']],
    [['Section', 'Schema', 'Description', 'Note'], ['Section', 'Schema', 'DataType', 'Note']],
]
NAMES = ['datatype', 'description', 'note']
VALUES = [None, '', ' ', 'v']
ODD = ['-', '--', '0', 'False', 'None', 'none', '.', '*', '?', 'nan', 'null', '_', '#', '|', ':', '\t', '\u00a0', "''", 'N/A', '0.0', 'x' * 200]
OTHER = [['Title', 'T', 'arg'], ['Table', 'rt'], ['Table.Column', 'rc'], ['Column.Note', ''], ['Column.Width', 'w']]
AFTER = [['Section', 'Resources', 'Width', 'Note'], ['Datafile', 'u', '', 'n'], ['Datafile.Note', ''], ['Column', 'zz', 'q']]
ROUTES = ['cells', 'rows', 'api', 'set']

SPECIAL = [
    # rows of the Schema section after its head
    [],
    [['Table', 't'], ],
    [['Table', 't'], ['Table.Note', ''], ['Table.Width', 'w']],
    [['Table', 't'], ['Table.Column', 'c'], ['Column.Range', ''], ['Range.Min', '1'], ['Range.Max', '']],
    [['Table', 't'], ['Table.Column', 'c'], ['Column.Range', 'r'], ['Range.Min', '1']],
    [['Table', 't'], ['Table.Column', 'c'], ['Column.Note', 'n1'], ['Column.Note', ''], ['Column.Note', 'n2'], ['Column.Width', '']],
    [['Table', 't'], ['Table.Column', 'c'], ['Column.Note', 'n1'], ['Column.Note', '']],
    [['Table', 't'], ['Table.Column', ''], ['Column.Note', '0']],
    [['Table', 't'], ['Table.Column', 'c'], ['Column.NOTE', '0'], ['Table.Column', 'd'], ['Column.note', 'False']],
    [['Table', 't'], ['Table.Column', 'c'], ['Table', 't'], ['Table.Column', 'c'], ['Column.Zeta', 'z'], ['Column.Alpha', 'a'], ['Column.Mu', 'm'],
     ['Column.Beta', 'b'], ['Column.Eta', 'e']],
    [['Column', 'c'], ['Column.Note', ''], ['Column.Width', 'w']],
    [['View', 't'], ['View.Column', 'c'], ['Column.Note', ''], ['Column.Width', 'w']],
    [['Note', ''], ['Table', 't'], ['Table.Column', 'c'], ['Column.Width', 'w'], ['Width', '']],
    [['Table', 't'], ['Table.Key', 'k'], ['Key.Note', ''], ['Key.Width', 'w'], ['Table.Column', 'c'], ['Column.Note', '']],
]


def bounds(tier):
    if tier == 'thorough':
        return dict(one=VALUES, two=[None, '', 'v'], routes2=ROUTES)
    return dict(one=VALUES, two=[None, '', 'v'], routes2=['cells', 'rows'])


def BOUNDS(tier):
    b = bounds(tier)
    return dict(section_heads=len(HEADS), properties=NAMES, values_one_column=b['one'], values_two_columns=b['two'], routes=ROUTES,
                special_schemas=len(SPECIAL))


def cases(tier):
    b = bounds(tier)
    yield {'head': None, 'special': 0}
    for h in range(len(HEADS)):
        for s in range(len(SPECIAL)):
            yield {'head': h, 'special': s}
    for h in range(len(HEADS)):
        for v in itertools.product(b['one'], repeat=len(NAMES)):
            for r in ROUTES:
                yield {'head': h, 'cols': [list(v)], 'route': r}
    for h in range(len(HEADS)):
        for v in itertools.product(b['two'], repeat=len(NAMES)):
            for w in itertools.product(b['two'], repeat=len(NAMES)):
                if tier != 'thorough' and (h not in (1, 3, 6, 7) or sum(x is not None for x in v) > 1 and h != 3):
                    continue
                for r in b['routes2']:
                    yield {'head': h, 'cols': [list(v), list(w)], 'route': r, 'split': (sum(x == 'v' for x in v) % 2) == 1}
    for h in (0, 2, 6, 9):
        for v in ODD:
            for vals in ([v, None, None], [None, '', v], [v, v, 'v']):
                for r in ROUTES:
                    yield {'head': h, 'cols': [vals], 'route': r}
    # More tables and columns, each with one property or none, in one table or one table each
    one = [[None, None, None], ['v', None, None], [None, '', 'v'], [None, 'v', None]]
    for n in ((3, 4, 5) if tier == 'thorough' else (3, 4)):
        for v in itertools.product(one, repeat=n):
            for h in ((1, 6) if n < 5 else (1,)):
                for split in (False, True, 2):
                    yield {'head': h, 'cols': [list(e) for e in v], 'route': 'cells', 'split': split}


def build(case):
    if case['head'] is None:
        return rows_doc(OTHER + AFTER), None
    head = HEADS[case['head']]
    names = [e.lower() for e in head[-1][2:]]
    if 'special' in case:
        return rows_doc(OTHER + head + SPECIAL[case['special']] + AFTER), names
    rows = []
    api = []
    for i, vals in enumerate(case['cols']):
        if i == 0 or case.get('split') is True or case.get('split') == 2 and i % 2 == 0:
            rows.append(['Table', 't%d' % i])
        cells = [''] * len(names)
        rest = []
        for k, v in zip(NAMES, vals):
            if v is None:
                continue
            if case['route'] == 'cells' and k in names:
                cells[names.index(k)] = v
            elif case['route'] in ('api', 'set'):
                api.append((i, k, v))
            else:
                rest.append(['Column.' + k.title(), v])
        rows.append(['Table.Column', 'c%d' % i] + cells)
        rows += rest
    d = rows_doc(OTHER + head + rows + AFTER)
    cols = [c for t in d['Schema'] for c in t.children]
    for i, k, v in api:
        if case['route'] == 'set':
            cols[i].new_child(k.title(), 'x').value = v
        else:
            cols[i].new_child(k.title(), v)
    return d, names


def blank(v):
    return v is None or not str(v).strip()


def norm(t):
    return (t[0], None if blank(t[1]) else str(t[1]).strip(), tuple(norm(c) for c in t[2]))


def tree(d):
    return [[s[0], [e.lower() for e in s[1]], [norm(t) for t in s[2]]] for s in snap(d, prov=False, types=False)]


def model(before):
    """The document after the cleanup"""
    out = []
    for name, cols, ts in before:
        if name.lower() != 'schema':
            out.append([name, cols, ts])
            continue
        used = []
        new = []
        for t in ts:
            if t[0] == 'table':
                cs = []
                for c in t[2]:
                    if c[0] == 'column':
                        for p in c[2]:
                            if p[1] is not None and p[0] not in used:
                                used.append(p[0])
                        c = (c[0], c[1], tuple(p for p in c[2] if p[1] is not None or p[2]))
                    cs.append(c)
                t = (t[0], t[1], tuple(cs))
            new.append(t)
        keep = [c for c in cols if c in used]
        out.append([name, keep + [u for u in used if u not in keep], new])
    return out


def props(d):
    return [[(c.record_term_lc, c.value, sorted((k, str(v).strip()) for k, v in c.props.items() if not blank(v)))
             for c in t.children if c.record_term_lc == 'column'] for t in d['Schema'] if t.record_term_lc == 'table']


def run(case, st):
    d, names = build(case)
    before = tree(d)
    want = model(before)
    r = attempt(d.clean_unused_schema_terms)
    st.step()
    if r[0] != 'ok':
        raise Violation('cleanup of %r failed: %s' % (before, r[2]), key='failed')
    got = tree(d)
    if got != want:
        raise Violation('cleanup of\n %r\n want %r\n got  %r' % (before, want, got), key='differs')
    consistent(d)
    r = attempt(d.clean_unused_schema_terms)
    st.step()
    if r[0] != 'ok' or tree(d) != want:
        raise Violation('the second cleanup of\n %r\n want %r\n got  %r' % (before, want, tree(d)), key='second')
    if case['head'] is not None:
        p = props(d)
        for n, e in (('CSV', attempt(lambda: rows_doc(csv_rows(d.as_csv())))), ('Lines', attempt(lambda: text_doc(d.as_lines())))):
            st.step()
            if e[0] != 'ok':
                raise Violation('the cleaned document can not be read back from %s: %s' % (n, e[2]), key='read ' + n)
            if props(e[1]) != p:
                raise Violation('properties read back from %s\n %r\nare\n %r' % (n, props(e[1]), p), key='back ' + n)
            if [c.lower() for c in e[1]['Schema'].property_names] != [c.lower() for c in d['Schema'].property_names]:
                raise Violation('columns read back from %s: %r, not %r' % (n, e[1]['Schema'].property_names, d['Schema'].property_names),
                                key='columns ' + n)
    st.state(json.dumps(before))
    st.outcome(got)
    st.trace()
