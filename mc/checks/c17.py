"""C17: data package conversion maps resources and schemas faithfully.

All documents of a bounded space of identities (Name, Identifier, Identity section), schemas (tables and columns with
their properties), and sequences of resources are made in several ways (properties in columns, in child rows, read back from CSV or
Lines, built or edited through the API, with and without declarations) and converted. The result must be the one computed
from the description of the document, the same each time, and the document must not change.
"""
import csv
import itertools
import json

from mc.common import Violation
from mc.impl import attempt, rows_doc, text_doc, csv_rows, MetatabDoc, MetatabRowGenerator
from mc.snap import snap

LEVEL = 'model_checking'

DECL = [
    ['Section', 'DeclaredSections'],
    ['DeclareSection', 'Schema', 'DataType'],
    ['DeclareSection', 'Resources', 'Name'],
    ['Section', 'DeclaredTerms', 'TermValueName', 'ChildPropertyType', 'Section'],
    ['DeclareTerm', 'Table', 'Name', 'sequence', 'Schema'],
    ['DeclareTerm', 'Table.Column', 'Name', 'sequence', 'Schema'],
    ['DeclareTerm', 'Root.Datafile', 'Url', 'sequence', 'Resources'],
]
TYPES = {'str': 'string', 'text': 'string', 'unicode': 'string', 'int': 'integer', 'float': 'number'}

COLUMNS = [
    ['c1', {'datatype': 'int'}],
    ['c2', {}],
    ['c3', {'datatype': 'float', 'title': 'T 3', 'description': 'd3', 'note': 'n'}],
    ['c1', {'datatype': 'geo', 'description': 'x,y'}],
    ['c5', {'title': 'T5'}],
    ['c6', {'datatype': 'str'}],
    ['c7', {'datatype': 'text'}],
    ['c8', {'datatype': 'unicode', 'description': 'd'}],
    ['c9', {'datatype': 'string'}],
    ['10', {'datatype': 'Int'}],
    ['c1', {'title': 'c1', 'description': 'c1'}],
    ['', {'name': 'nn', 'datatype': 'int'}],
    ['name', {'datatype': 'name', 'title': 'int', 'description': 'name'}],
    ['c 13', {'title': 'str', 'datatype': ' float '}],
]
MOST = 5  # The others are only in a few schemas
RESOURCES = [
    ['Datafile', 'http://x/1', {'name': 't1', 'title': 'r'}],
    ['Datafile', 'u2', {'name': 'other', 'table': 't1'}],
    ['Datafile', 'u3', {'name': 'noschema'}],
    ['Datafile', 'u4', {'name': 't2', 'table': 't1'}],
    ['Reference', 'u5', {'name': 't1'}],
    ['Datafile', 'u6', {'table': 't2'}],
    ['Datafile', 'u7', {}],
    ['Datafile', 'u8', {'name': 'other', 'table': 'nosuch', 'note': 'n'}],
    ['Datafile', 'http://x/1', {'name': 'T1', 'table': 't1'}],
]
EXTRAS = [[], [['Title', 'T', {}]], [['Keyword', 'k1', {}], ['Title', 'T', {}], ['Keyword', 'k2', {}], ['Contact', 'bob', {'email': 'e'}]]]
NAMES = [None, '', 'nm']
IDS = [None, '', 'id']
IDENTITY = [None, [], [['Name', 'in', {}]], [['Identifier', 'ii', {}], ['Origin', 'oo', {}]], [['Origin', '', {}]], [['Title', '', {}], ['Title', 'T2', {}]]]
SCHEMA_COLS = ['DataType', 'Title', 'Description']
RES_COLS = ['Name', 'Title', 'Table']
ROUTES = ['columns', 'children', 'csv', 'lines', 'api', 'edited']


def setup(tier):
    with open('d17.csv', 'w', newline='') as f:
        csv.writer(f).writerows(DECL)


def bounds(tier):
    return dict(columns=3, resources=3, routes2=ROUTES) if tier == 'thorough' else dict(columns=2, resources=2, routes2=['columns', 'lines'])


def BOUNDS(tier):
    b = bounds(tier)
    return dict(identities=len(NAMES) * len(IDS) * len(IDENTITY) * len(EXTRAS), column_alphabet=len(COLUMNS), columns_per_table=b['columns'],
                resource_alphabet=len(RESOURCES), resources=b['resources'], routes=ROUTES, declared=[False, 'row', 'argument'])


def seqs(n, k):
    for m in range(k + 1):
        yield from itertools.product(range(n), repeat=m)


def cases(tier):
    b = bounds(tier)
    plain = dict(name='nm', id='id', identity=None, extra=0)
    schema = [['t1', [0, 2]]]
    for n, i, idy, e in itertools.product(range(len(NAMES)), range(len(IDS)), range(len(IDENTITY)), range(len(EXTRAS))):
        yield dict(plain, name=NAMES[n], id=IDS[i], identity=idy, extra=e, tables=schema, res=[0], routes=ROUTES)
    # Missing and empty sections
    for t in (None, []):
        for r in (None, []):
            yield dict(plain, tables=t, res=r, routes=ROUTES)
    yield dict(plain, tables=None, res=[0], routes=ROUTES)
    yield dict(plain, tables=schema, res=None, routes=ROUTES)
    few = [(), (0,), (1, 3), (6, 0), (4, 1)]
    for i in range(MOST, len(COLUMNS)):
        for c in ([i], [0, i], [i, 1], [i, i], list(range(i + 1))):
            yield dict(plain, tables=[['t1', c]], res=[0, 1], routes=ROUTES)
    for c in seqs(MOST, b['columns']):
        for r in few:
            yield dict(plain, tables=[['t1', list(c)]], res=list(r), routes=ROUTES)
    schemas = [[['t1', list(c)]] for c in seqs(MOST, 1)]
    for c in seqs(MOST, 1):
        for d in seqs(MOST, 1):
            schemas.append([['t1', list(c)], ['t2', list(d)]])
    schemas += [[['t2', [1, 0]], ['t1', [2, 3]]], [['t1', [0]], ['x', [2]], ['t2', [4, 1]]], [['t2', [2, 2]]]]
    for s in schemas:
        for r in seqs(len(RESOURCES), 1):
            yield dict(plain, tables=s, res=list(r), routes=ROUTES)
    for s in ([['t1', [0, 1]], ['t2', [2]]], [['t2', [3, 4]]]) if tier != 'thorough' else schemas[::7]:
        for r in seqs(len(RESOURCES), b['resources']):
            if len(r) > 1:
                yield dict(plain, tables=s, res=list(r), routes=b['routes2'])


# The document, as a list of sections of terms with properties and children

def content(case):
    root = [list(e) for e in EXTRAS[case['extra']]]
    if case['name'] is not None:
        root.append(['Name', case['name'], {}])
    if case['id'] is not None:
        root.append(['Identifier', case['id'], {}])
    secs = [['Root', [], [t + [[]] for t in root]]]
    if case['identity'] is not None and IDENTITY[case['identity']] is not None:
        secs.append(['Identity', [], [t + [[]] for t in IDENTITY[case['identity']]]])
    if case['res'] is not None:
        secs.append(['Resources', RES_COLS, [RESOURCES[i] + [[]] for i in case['res']]])
    if case['tables'] is not None:
        secs.append(['Schema', SCHEMA_COLS, [['Table', n, {}, [['Column'] + COLUMNS[i] + [[]] for i in cs]] for n, cs in case['tables']]])
    return secs


def table(secs, children):
    rows = []

    def put(t, cols, parent):
        name, value, props, subs = t
        rest = {k: v for k, v in props.items() if children or k not in [c.lower() for c in cols]}
        rows.append([(parent + '.' if parent else '') + name, value] + [('' if c.lower() in rest else props.get(c.lower(), '')) for c in cols])
        for k, v in rest.items():
            rows.append([name + '.' + k.title(), v])
        for s in subs:
            put(s, cols, name)

    for name, cols, ts in secs:
        if name != 'Root':
            rows.append(['Section', name] + cols)
        for t in ts:
            put(t, cols, None)
    return rows


def build(secs, route, decl):
    def rows(children):
        r = table(secs, children)
        if decl == 'row':
            r = [['Declare', 'd17.csv']] + r
        kw = dict(decl='d17.csv') if decl == 'argument' else {}
        return rows_doc(r, **kw)

    kw = dict(decl='d17.csv') if decl == 'argument' else {}
    if route == 'columns':
        return rows(False)
    if route == 'children':
        return rows(True)
    if route == 'csv':
        return rows_doc(csv_rows(rows(False).as_csv()), **kw)
    if route == 'lines':
        return text_doc(rows(True).as_lines(), **kw)
    if route == 'api':
        d = MetatabDoc(decl='d17.csv') if decl else MetatabDoc()
        for name, cols, ts in secs:
            s = d['Root'] if name == 'Root' else d.get_or_new_section(name, cols)
            for n, v, props, subs in ts:
                t = s.new_term(n, v, **props)
                for sn, sv, sp, _ in subs:
                    t.new_child(sn, sv, **sp)
        return d
    # Other values first, then edited
    other = [[name, cols, [[n, v, {k: 'old' for k in props}, [[sn, 'old', {k: 'old' for k in sp}, ss] for sn, sv, sp, ss in subs]]
                           for n, v, props, subs in ts]] for name, cols, ts in secs]
    r = table(other, False)
    if decl == 'row':
        r = [['Declare', 'd17.csv']] + r
    d = rows_doc(r, **kw)
    for name, cols, ts in secs:
        have = [t for t in d[name] if not t.term_is('declare')]
        for t, (n, v, props, subs) in zip(have, ts):
            for k, pv in props.items():
                t[k] = pv
            for c, (sn, sv, sp, ss) in zip(t.find('column'), subs):
                c.value = sv
                for k, pv in sp.items():
                    c[k] = pv
    return d


def expect(case, route, decl):
    """The data package, or None for a conversion error"""
    dp = {}
    ident = IDENTITY[case['identity']] if case['identity'] is not None else None
    for n, v, props in EXTRAS[case['extra']]:
        x = dict(props, **{'@value': v}) if props else v
        n = n.lower()
        dp[n] = x if n not in dp else [dp[n], x]
    name, id_ = case['name'], case['id']
    over = {}
    for n, v, _ in ident or []:
        if n == 'Name':
            name = v
        elif n == 'Identifier':
            id_ = v
        else:
            n = n.lower()
            over[n] = v if n not in over else [over[n], v]
    dp.update(over)
    if id_:
        dp['identifier'] = id_
    if not (name or id_) or case['tables'] is None or case['res'] is None:
        return None
    dp['name'] = name or id_
    schemas = {}
    for n, cs in case['tables']:
        schemas[n] = cs
    dp['resources'] = []
    for i in case['res']:
        kind, url, props = RESOURCES[i]
        t = props.get('name') if props.get('name') in schemas else props.get('table')
        if kind != 'Datafile' or t not in schemas:
            continue
        fields = []
        for c in schemas[t]:
            cn, cp = COLUMNS[c]
            f = {'name': cn or cp.get('name')}
            for k in ('title', 'description'):
                if cp.get(k):
                    f[k] = cp[k]
            if cp.get('datatype'):
                f['type'] = TYPES.get(cp['datatype'].strip(), cp['datatype'].strip())
            fields.append(f)
        r = {'path': url, 'schema': {'fields': fields}}
        if props.get('name'):
            r['name'] = props['name']
        dp['resources'].append(r)
    return tidy(dp)


def tidy(d):
    """Without the entries that have no value"""
    if isinstance(d, dict):
        return {k: tidy(v) for k, v in d.items() if v not in (None, '')}
    if isinstance(d, (list, tuple)):
        return ['' if e is None else tidy(e) for e in d]
    return d


def run(case, st):
    from metatab.datapackage import convert_to_datapackage
    secs = content(case)
    for route in case['routes']:
        for decl in (False, 'row', 'argument') if route in ('columns', 'lines', 'api') else ('row',):
            if decl == 'row' and route == 'api':
                continue
            want = expect(case, route, decl)
            d = build(secs, route, decl)
            before = snap(d), d.as_csv()
            r = attempt(convert_to_datapackage, d)
            st.step()
            what = 'made by %s, declarations %s' % (route, decl)
            if want is None:
                if r[0] == 'ok':
                    raise Violation('%s: converted, without a name, schema or resources\n%r' % (what, r[1]), key='converted')
                if r[1] != 'metatab':
                    raise Violation('%s: ended in %s' % (what, r[2]), key='exception ' + r[1])
            else:
                if r[0] != 'ok':
                    raise Violation('%s: %s' % (what, r[2]), key='failed ' + r[2][:60])
                got = tidy(r[1])
                got.pop('declare', None)
                if got != want:
                    raise Violation('%s\n want %s\n got  %s' % (what, json.dumps(want), json.dumps(got, default=str)), key='differs')
                if attempt(json.dumps, r[1])[0] != 'ok':
                    raise Violation('%s: the data package can not be written as JSON' % what, key='json')
                again = attempt(convert_to_datapackage, d)
                if again != r:
                    raise Violation('%s: the second conversion differs\n %r\n %r' % (what, r, again), key='second')
            if (snap(d), d.as_csv()) != before:
                raise Violation('%s: the document was changed\n %r\n %r' % (what, before, (snap(d), d.as_csv())), key='changed')
            st.outcome(want)
            st.trace()
    st.state(json.dumps([case[k] for k in ('name', 'id', 'identity', 'extra', 'tables', 'res')]))
