"""C07: declarations determine names, types, synonyms and inheritance of terms.

All subsets of a set of declaration rows, and all orders of some, crossed with documents that use the declared terms
and with every way to load declarations (a Declare row at each place, two Declare rows, the decl argument, a later call, and
combinations). The parsed document, its dictionary form, the declared terms and sections and the searches are compared with the
reference model.
"""
import csv
import os
from itertools import combinations, permutations

from mc import gen, spec
from mc.common import Violation
from mc.impl import attempt, MetatabDoc, MetatabRowGenerator
from mc.snap import snap, plain, consistent

LEVEL = 'model_checking'

COLS = ['TermValueName', 'ChildPropertyType', 'Section', 'Synonym', 'InheritsFrom']
DECLS = [
    ['DeclareTerm', 'Table', 'Name', 'sequence', 'Schema', '', ''],
    ['DeclareTerm', 'Table.Column', 'Name', 'sequence', 'Schema', '', ''],
    ['DeclareTerm', 'Root.View', 'VName', '', 'schema', '', 'root.TABLE'],
    ['DeclareTerm', 'Tbl', '', '', '', 'Root.table', ''],
    ['DeclareTerm', 'Title', 'TheTitle', 'scalar', 'Root', '', ''],
    ['DeclareTerm', 'view.Column', 'ColName', 'any', 'SCHEMA', '', ''],
    ['DeclareTerm', 'Note', '', 'sconcat', '', '', ''],
    ['DeclareTerm', 'View.Note', 'Text', 'bconcat', 'Root', '', ''],
]
ODD = [
    ['DeclareTerm', 'Bad', 'x', '', 'NoSuch', '', ''],
    ['DeclareTerm', 'Root.View', 'VName', '', '', '', 'Root.Table'],
    ['DeclareTerm', 'Table', 'Again', 'scalar', 'Schema', '', ''],
    ['DeclareTerm', 'View', 'Other', 'sequence', 'Schema', '', 'Table'],
    ['DeclareTerm', 'Sub', 'SubName', '', 'Schema', '', 'vIEW'],
    ['Title', 'a title of the declarations'],
    ['Header', 'Term', 'TermValueName', 'ChildPropertyType', 'Section', 'Synonym', 'InheritsFrom'],
    ['Section', 'Schema', 'TermValueName'],
    ['DeclareSection', 'Extra', 'One', 'Two'],
    ['DeclareTerm', 'Table.Col', '', '', '', 'Table.Column', ''],
    ['DeclareTerm', 'My Term', 'My Name', 'scalar', 'Schema', '', ''],
    ['DeclareTerm', 'View.Column', '', 'scalar', '', '', ''],
    ['DeclareSection', 'other', 'A B', 'C'],
    ['DeclareTerm', 'Title', 'T', '', 'Root', '', ''],
    ['DeclareTerm', 'Table.View', 'VV', 'sequence', 'Schema', '', ''],
    ['DeclareTerm', 'Table.AdditionalInformation', 'Text', 'scalar', 'Schema', '', ''],
]
SECTIONS = [['Section', 'DeclaredSections'], ['DeclareSection', 'Schema', 'Data Type', '', 'Note']]
TERMS = [['Section', 'DeclaredTerms'] + COLS]

DOCS = [
    [['Title', 'T x'], ['Note', 'n'], ['Section', 'Schema', 'DataType', 'Note'], ['Tbl', 't1'], ['Table.Column', 'c1', 'Int', 'n'],
     ['Column.Unit', 'm'], ['View', 'v1', 'Dt'], ['View.Column', 'c2'], ['.Note', 'k'], ['View.Note', 'k2'], ['Table', 't2']],
    [['Section', 'Schema'], ['Table', 't1', 'x', 'y'], ['Title', 'tt'], ['Section', 'Other', 'Title', 'Note'], ['Note', 'a', 'b', 'c'],
     ['Note', 'd'], ['Sub', 's'], ['Sub.Column', 'sc', 'st']],
    [['Table', 't'], ['Table.Col', 'c1', 'x'], ['.col', 'c2'], ['View', 'v'], ['.col', 'c3'], ['.Column', 'c4', 'y'], ['My Term', 'm'], ['my term', 'n', 'o'],
     ['My Term.Note', 'k'], ['Section', 'Schema'], ['My term', 'p', 'q', 'r'], ['Section', 'Other'], ['My Term', 's', 't', 'u']],
    [['Title', '1', 'p'], ['Title', '2'], ['View', 'v', 'w'], ['Tbl', 't', 'q'], ['View', 'v2'], ['Section', 'Extra'], ['Bad', 'b', 'o']],
]

ROUTES = ['row0', 'row3', 'two', 'decl', 'decl2', 'late', 'again', 'include']

# Names that a Declare row can have for a file of declarations, and where the document and the file are
# (not also in the current directory, where they are looked for first)
NAMES = [('decls7.csv', 'm.csv', 'decls7.csv'), ('decls7', 'm.csv', 'decls7.csv'), ('ABS/decls7.csv', 'm.csv', 'decls7.csv'), ('ABS/sub/x', 'm.csv', 'sub/x.csv'),
         ('x.csv', 'sub/m.csv', 'sub/x.csv'), ('x', 'sub/m.csv', 'sub/x.csv'), ('../decls7', 'sub/m.csv', 'decls7.csv'), ('sub/x', 'm.csv', 'sub/x.csv'),
         ('./decls7.csv', 'm.csv', 'decls7.csv'), (' decls7.csv ', 'm.csv', 'decls7.csv'), ('My.Decl v1', 'm.csv', 'My.Decl v1.csv'), ('WEB/decls7.csv', 'm.csv', 'WEB/decls7.csv'),
         ('WEB/a/decls7.csv', 'sub/m.csv', 'WEB/a/decls7.csv'), ('nosuch', 'm.csv', None), ('WEB/nosuch.csv', 'm.csv', None)]


def BOUNDS(tier):
    return dict(declaration_rows=len(DECLS) + len(ODD), subsets='all of %d rows' % len(DECLS), orders='all of 4 rows',
                odd_rows='each alone, and at each place' + (', in pairs' if tier == 'thorough' else ''), documents=len(DOCS), routes=ROUTES)


def sets(tier):
    n = len(DECLS)
    for k in range(n + 1):
        for sub in combinations(range(n), k):
            yield [DECLS[i] for i in sub]
    for p in permutations((0, 1, 2, 5)):
        yield [DECLS[i] for i in p]
    for p in permutations((1, 2, 3, 6)):
        yield [DECLS[i] for i in p]
    base = DECLS[:3] + DECLS[4:5]
    for o in ODD:
        for i in range(len(base) + 1):
            yield base[:i] + [o] + base[i:]
        yield [o]
    if tier == 'thorough':
        for o in ODD:
            for o2 in ODD:
                for i in range(len(base) + 1):
                    for j in range(i, len(base) + 1):
                        yield base[:i] + [o] + base[i:j] + [o2] + base[j:]
        for p in permutations((0, 1, 2, 3, 4, 5)):
            yield [DECLS[i] for i in p]


def cases(tier):
    for decl in sets(tier):
        for d in range(len(DOCS)):
            for r in ROUTES:
                yield {'decl': decl, 'doc': d, 'route': r}
    for n in range(len(NAMES)):
        for d in range(len(DOCS)):
            for decl in ([], DECLS[:4], DECLS):
                yield {'decl': decl, 'doc': d, 'name': n}
    for n, rows in gen.real_documents().items():
        for route in ('row', 'decl', 'decl+row'):
            yield {'real': n, 'route': route}
        for i, _ in enumerate(gen.near_edits(rows)):
            yield {'real': n, 'edit': i, 'route': 'row'}


def write(name, rows):
    with open(name, 'w', newline='') as f:
        csv.writer(f).writerows(rows)


def obs_decl(terms):
    """Declared terms: what a declaration says about them"""
    out = {}
    for k, d in terms.items():
        out[k.lower()] = tuple((d.get(f) or None) if f == 'childpropertytype' else low(d.get(f))
                               for f in ('termvaluename', 'childpropertytype', 'section'))
    return out


def low(v):
    return v.strip().lower() if v and v.strip() else None


def obs_sections(secs):
    return {k.lower(): (tuple(v['args']), tuple(spec_name(t) for t in v['terms'])) for k, v in secs.items()}


def spec_name(t):
    n, p = spec.split(t)
    return '%s.%s' % ('root' if p is None else p, n)


def nofile(c):
    def term(t):
        return t[:7] + (tuple(term(x) for x in t[8]),)

    return tuple((n, cols, tuple(term(t) for t in ts)) for n, cols, ts in c)


_cache = {}


def published():
    """The rows of the declarations that are published with metatab, from the package that has them"""
    if 'p' not in _cache:
        import metatabdecl
        d = os.path.dirname(metatabdecl.__file__)
        _cache['p'] = {}
        for n in os.listdir(d):
            if n.endswith('.csv'):
                with open(os.path.join(d, n), newline='', encoding='utf8') as f:
                    _cache['p'][n] = list(csv.reader(f))
        _cache['r'] = gen.real_documents()
    return _cache['p'], _cache['r']


def compare(doc, model, load, st, what):
    """The document of the model, when `model` has run, with the one that `load` gives"""
    try:
        model()
        want = ('ok', nofile(spec.canon(doc)), obs_decl(doc.decl_terms), obs_sections(doc.decl_sections), strip_declare(plain(spec.doc_dict(doc))))
    except spec.SpecError as e:
        want = ('error', e.kind)
    st.step(doc.steps)
    st.state(repr(want))
    got = attempt(load)
    st.trace()
    have = got[:2]
    if got[0] == 'ok':
        d = got[1]
        have = ('ok', nofile(snap(d)), obs_decl(d.decl_terms), obs_sections(d.decl_sections), strip_declare(plain(d.as_dict())))
    st.outcome(repr(have))
    for k in range(max(len(have), len(want))):
        if have[k:k + 1] != want[k:k + 1]:
            raise Violation('%s\n want %s\n got  %s %s' % (what, want[k:k + 1], have[k:k + 1], got[2:]), key='declared %s' % k)
    if got[0] == 'ok':
        consistent(got[1], declared=True)


def run_real(case, st):
    files, docs = published()
    rows = docs[case['real']]
    if 'edit' in case:
        rows = [r for i, r in enumerate(gen.near_edits(rows)) if i == case['edit']][0]
    doc = spec.Doc()
    decls = [r[1].strip() for r in rows if r and r[0].strip().lower() == 'declare'] or ['metatab-latest']
    main = [r for r in rows if not (r and r[0].strip().lower() == 'declare')] if case['route'] == 'decl' else rows

    def model():
        if case['route'] != 'row':
            spec.Parser(doc, files).parse([['Declare', n] for n in decls], path='x.csv')
        spec.Parser(doc, files).parse(main, path='m.csv')

    def load():
        write('real.csv', main)
        return MetatabDoc(os.path.abspath('real.csv'), decl=None if case['route'] == 'row' else decls)

    compare(doc, model, load, st, 'document %s, %s' % (case['real'], case['route']))


_n = [0]


def run_name(case, st):
    import shutil
    name, at, where = NAMES[case['name']]
    _n[0] += 1
    web = 'w7-%d-%d' % (os.getpid(), _n[0])
    shutil.rmtree('n7', ignore_errors=True)
    os.makedirs('n7/sub')
    text = name.replace('ABS', os.path.abspath('n7'))
    if 'WEB' in name:
        from mc.checks.c19 import server
        text = name.replace('WEB', server() + web)
    rows = SECTIONS + TERMS + case['decl']
    files = {}
    if where is not None:
        p = where.replace('WEB', web) if 'WEB' in where else 'n7/' + where
        os.makedirs(os.path.dirname(p), exist_ok=True)
        write(p, rows)
        files['d.csv'] = rows
    main = [[r[0], text] if r[0] == 'Declare' else r for r in [['Declare', 'x']] + DOCS[case['doc']]]
    write('n7/' + at, main)
    doc = spec.Doc()

    def model():
        # In the model the file has another name
        spec.Parser(doc, files).parse([['Declare', 'd.csv']] + main[1:], path='m.csv')
        doc.sections['root'].terms[0].value = text.strip()

    compare(doc, model, lambda: MetatabDoc(os.path.abspath('n7/' + at)), st, 'Declare %r in %s for %s' % (text, at, where))


def run(case, st):
    if 'real' in case:
        return run_real(case, st)
    if 'name' in case:
        return run_name(case, st)
    decl, rows, route = case['decl'], DOCS[case['doc']], case['route']
    half = len(decl) // 2
    files = {'all.csv': SECTIONS + TERMS + decl, 'first.csv': SECTIONS + TERMS + decl[:half],
             'second.csv': TERMS + decl[half:], 'outer.csv': [['Include', 'all.csv']]}

    pre, late, main = [], [], [list(r) for r in rows]
    if route == 'row0':
        main = [['Declare', 'all.csv']] + main
    elif route == 'row3':
        main = main[:3] + [['Declare', 'all.csv']] + main[3:]
    elif route == 'two':
        main = [['Declare', 'first.csv']] + main[:1] + [['Declare', 'second.csv']] + main[1:]
    elif route == 'decl':
        pre = ['all.csv']
    elif route == 'decl2':
        pre = ['first.csv', 'second.csv']
    elif route == 'late':
        pre = ['first.csv']
        late = ['second.csv']
    elif route == 'again':
        pre = ['all.csv']
        main = main[:1] + [['Declare', 'all.csv']] + main[1:]
    elif route == 'include':
        main = [['Declare', 'outer.csv']] + main

    # The model
    doc = spec.Doc()
    try:
        for group in (pre, late):
            if group:
                spec.Parser(doc, files).parse([['Declare', n] for n in group], path='x.csv')
        spec.Parser(doc, files).parse(main, path='m.csv')
        want = ('ok', nofile(spec.canon(doc)), obs_decl(doc.decl_terms), obs_sections(doc.decl_sections), spec.doc_dict(doc))
    except spec.SpecError as e:
        want = ('error', e.kind)
    st.step(doc.steps)
    st.state(repr(want))

    # The implementation
    for n, r in files.items():
        write(n, r)

    def load():
        if not pre and not late:
            write('m.csv', main)
            return MetatabDoc(os.path.abspath('m.csv'))
        if not late:
            return MetatabDoc(MetatabRowGenerator(main), decl=[os.path.abspath(n) for n in pre] if len(pre) > 1 else os.path.abspath(pre[0]))
        d = MetatabDoc()
        for group in (pre, late):
            d.load_declarations([os.path.abspath(n) for n in group])
        d.load_rows(MetatabRowGenerator(main))
        return d

    got = attempt(load)
    st.trace()
    if got[0] == 'ok':
        d = got[1]
        have = ('ok', base(nofile(snap(d))), obs_decl(d.decl_terms), obs_sections(d.decl_sections), plain(d.as_dict()))
        have = have[:4] + (strip_declare(have[4]),)
        want = want[:4] + (strip_declare(plain(want[4])),) if want[0] == 'ok' else want
    else:
        have = got[:2]
    st.outcome(repr(have))
    if have != want:
        i = [k for k in range(min(len(have), len(want))) if have[k] != want[k]]
        k = i[0] if i else 0
        raise Violation('declared document differs\n decl %s\n want %s\n got  %s %s' % (decl, want[k] if i else want, have[k] if i else have, got[2:]),
                        key='declared %s' % k)

    if got[0] != 'ok':
        return
    consistent(d, declared=True)

    # Searches for a term find the terms that inherit from it
    derived = {}
    for k, v in doc.decl_terms.items():
        if v.get('inheritsfrom'):
            derived.setdefault(spec_name(v['inheritsfrom']), set()).add(k)
    for q in ('Root.Table', 'view', 'ROOT.TITLE'):
        names = {spec_name(q)} | derived.get(spec_name(q), set())
        want = [t for s in d for t in s if t.join_lc in names]
        found = d.find(q)
        if sorted(map(id, found)) != sorted(map(id, want)):
            raise Violation('find(%r) gives %s, expected %s' % (q, found, want))

    created(d, doc)


def base(c):
    """The value of a Declare term is the path that was given"""

    def term(t):
        return (t[0], os.path.basename(t[1]) if t[0] == 'declare' else t[1]) + t[2:]

    return tuple((n, cols, tuple(term(t) for t in ts)) for n, cols, ts in c)


def strip_declare(d):
    d = dict(d)
    d.pop('declare', None)
    return d


def created(d, doc):
    """Terms created through the interface are like parsed terms"""
    s = d.get_or_new_section('Made')
    for name in ('Title', 'Table', 'View', 'Note', 'Plain'):
        t = s.new_term(name, 'v')
        same(t, doc)
        same(t.new_child('Column', 'c'), doc)
        same(t.get_or_new_child('Note', 'n'), doc)
        same(s.get_or_new_term('Root.' + name, 'v2'), doc)


    # Sections that are created have the declared columns, whatever happens to those of other sections
    want = obs_sections(d.decl_sections)
    for n, (args, _) in want.items():
        if n in d or not args:
            continue
        for make in (lambda: d.get_or_new_section(n.upper()), lambda: d.new_section(n.title()), lambda: d.new_section(n)):
            s = make()
            if tuple(s.property_names) != args:
                raise Violation('a new section %s has the columns %s, declared %s' % (n, s.property_names, args), key='new section')
            s.add_arg('zz')
            s.add_arg('yy', True)
            s.remove_arg(args[0])
            if obs_sections(d.decl_sections) != want:
                raise Violation('changing the columns of section %s changed its declaration: %s' % (n, d.decl_sections), key='changed declaration')


def same(t, doc):
    e = doc.decl_terms.get(t.join_lc, {})
    want = (e.get('termvaluename') or '@value').lower(), e.get('childpropertytype') or 'any'
    have = t.term_value_name.lower(), t.child_property_type
    if want != have:
        raise Violation('created term %r has value name and type %s, declared %s' % (t, have, want))
