"""C08: search returns exactly the matching terms, in document order.

Every query over closed sets of names, wildcards, lists of names, values, sections, lists of sections and properties is made on
every document of a bounded set (parsed, edited, and with declared inheritance), and compared with a plain filter over
the tree of the document. First-match, value and default lookups must agree with the full search, and the document must not change.
"""
import csv
import os

from mc import gen, ops, spec
from mc.common import Violation
from mc.impl import attempt, rows_doc, MetatabDoc
from mc.snap import snap

LEVEL = 'model_checking'

ALPHA = [
    ['A', '1', 'x'],
    ['Section', 'Sec', 'pr', 'prq'],
    ['Ab', '1', 'x', 'y'],
    ['A.Ab', '2'],
    ['.C', '1'],
    ['A', '', 'x', 'z'],
    ['Section', 'Root'],
    ['Ab.A', '3', 'x'],
    ['Section', 'Se', 'pr'],
]

DECL = [
    ['Section', 'DeclaredTerms', 'TermValueName', 'Section', 'InheritsFrom'],
    ['DeclareTerm', 'A', 'name', 'Root', ''],
    ['DeclareTerm', 'A.Pr', '', 'Root', ''],
    ['DeclareTerm', 'Ab', 'name', 'Root', 'Root.A'],
    ['DeclareTerm', 'D', '', 'Root', 'A'],
    ['DeclareTerm', 'E', '', 'Root', 'D'],
]
DOCS = [
    [['Declare', 'd8.csv'], ['A', '1'], ['Ab', '2', 'x'], ['A', '13'], ['D', '1'], ['Section', 'Sec', 'pr', 'prq'], ['D', '5', 'x'], ['A', '1', 'x'],
     ['Ab', '1', 'x', 'y'], ['E', '1'], ['Ab.A', '7']],
    [['Declare', 'd8.csv'], ['E', '1', 'x'], ['D', '2'], ['Section', 'Se', 'pr'], ['Ab', '1', 'x'], ['.C', '1'], ['Section', 'Sec', 'prq'], ['A', '', 'y'], ['.Pr', ''], ['D', '1'], ['D.pr', '']],
]

NAMES = ['A', 'root.a', 'Root.Ab', 'A.Ab', '*.aB', 'A.*', '*.*', 'Root.*', '*.b', 'a.Pr', 'ab.c', '*.pR', 'NoSuch', 'No.Such', '*.a', 'Section', 'D',
         ['A', 'Root.Ab'], ['Ab', 'A.Ab', 'A'], ['a', 'Root.A'], [], ['*.pR', 'nosuch'], ('D', 'E')]
VALUES = [False, '1', '2', None, 'zz']
SECTIONS = [None, 'Root', 'sEC', ['SEC', 'Root'], ['sE', 'nosuch'], 'NoSuch', []]
PROPS = [{}, {'pr': 'x'}, {'PR': 'x', 'prq': 'y'}, {'pr': ''}, {'name': '1'}]


def bounds(tier):
    return (4, 1, 3) if tier == 'thorough' else (3, 1, 2)


def BOUNDS(tier):
    d, full, deep = bounds(tier)
    return dict(row_alphabet=len(ALPHA), depth=d, edit_histories=deep, inheritance_documents=len(DOCS),
                queries='all %d on some documents, all with at most one of value and properties on the others' % (
                    len(NAMES) * len(VALUES) * len(SECTIONS) * len(PROPS)))


def setup(tier):
    with open('d8.csv', 'w', newline='') as f:
        csv.writer(f).writerows(DECL)


EDIT_START = [[['A', '1', 'x'], ['Section', 'Sec', 'pr', 'prq'], ['Ab', '1', 'x', 'y'], ['A', '2', 'x'], ['A.Ab', '1']]]


def some(m, rich):
    return [op for op in ops.enabled(m, rich) if op[0] in ('new_term', 'move', 'remove_term', 'sort_terms', 'sort_sections', 'remove_add',
                                                           'new_child', 'del_section', 'set_value', 'get_or_new_section', 'remove_child')]


def cases(tier):
    d, full, deep = bounds(tier)
    for i in range(len(DOCS)):
        for rows in [DOCS[i]] + [r for r in gen.row_edits(DOCS[i]) if r[0][0] == 'Declare']:
            yield {'rows': rows, 'full': rows is DOCS[i] or tier == 'thorough'}
    for seq in gen.sequences(ALPHA, d):
        if len(seq) == d and seq[0][0] == 'Section' and seq[0][1] == 'Root':
            continue
        yield {'rows': seq, 'full': len(seq) <= 2}
    for k, h, m in ops.histories(EDIT_START, full, deep, rich=True, ops=some):
        yield {'ops': h}


def tree(d):
    """(term, qualified name, section) of all terms in document order"""
    out = []

    def walk(t, parent, sec):
        out.append((t, parent, t.record_term_lc))
        for c in t.children:
            walk(c, t.record_term_lc, sec)

    for s in d:
        for t in s:
            walk(t, 'root', s)
    return out


def matches(e, name):
    t, p, n = e
    name = name.lower()
    if '.' not in name:
        name = 'root.' + name
    qp, qn = name.split('.')
    return qp in ('*', p) and qn in ('*', n)


def prop(t, k):
    if k.lower() == t.term_value_name.lower():
        return t.value
    for c in t.children:
        if c.record_term_lc == k.lower():
            return c.value
    return None


def select(nodes, names, value, section, props, derived):
    secs = None if section is None else [section] if isinstance(section, str) else list(section)
    groups = []
    for n in names:
        q = n.lower() if '.' in n else 'root.' + n.lower()
        for x in sorted(derived.get(q, [])) + [q]:
            if x not in groups:
                groups.append(x)
    out = []
    for g in groups:
        out.append([e[0] for e in nodes if matches(e, g)
                    and (value is False or e[0].value == value)
                    and (secs is None or e[0].section.name.lower() in [s.lower() for s in secs])
                    and all(prop(e[0], k) == v for k, v in props.items())])
    return out


def run(case, st):
    if 'rows' in case:
        got = attempt(rows_doc, case['rows'])
        if got[0] != 'ok':
            st.add('not_parsed')
            return
        d = got[1]
    else:
        d = rows_doc(EDIT_START[0])
        for op in case['ops']:
            got = attempt(ops.do, d, op)
            if got[0] != 'ok':
                st.add('not_applied')
                return
    before = snap(d)
    st.state(before)
    nodes = tree(d)
    derived = {}
    if 'rows' in case and case['rows'] and case['rows'][0][0] == 'Declare':
        derived = {'root.a': ['root.ab', 'root.d'], 'root.d': ['root.e']}
    counts = []
    for name in NAMES:
        names = [name] if isinstance(name, str) else list(name)
        for value in VALUES:
            for section in SECTIONS:
                for props in PROPS:
                    if props and value is not False and not case.get('full'):
                        continue
                    q = (name, value, section, props)
                    groups = select(nodes, names, value, section, props, derived)
                    got = attempt(d.find, list(name) if isinstance(name, tuple) else name, value=value, section=section, **props)
                    st.step()
                    if got[0] != 'ok':
                        raise Violation('find%s raised %s' % (q, got[2]))
                    found = [t for t in got[1] if not is_section(t)]
                    if isinstance(got[1], list) is False:
                        raise Violation('find%s is not a list' % (q,))
                    want = [t for g in groups for t in g]
                    counts.append(len(want))
                    if sorted(map(id, found)) != sorted(map(id, want)):
                        raise Violation('find%s gives %s, expected %s' % (q, found, want))
                    if len(groups) == 1:
                        ordered = list(map(id, found)) == list(map(id, want))
                    else:
                        # in document order for each name
                        ordered = all([id(t) for t in found if t.join_lc == n] == [id(t) for t in want if t.join_lc == n]
                                      for n in set(t.join_lc for t in want))
                    if not ordered:
                        raise Violation('find%s is not in document order: %s, expected %s' % (q, found, want))
                    first = attempt(d.find_first, name, value=value, section=section, **props)
                    fv = attempt(d.find_first_value, name, value=value, section=section, **props)
                    if got[1]:
                        ok = first == ('ok', got[1][0]) and fv == ('ok', got[1][0].value)
                    else:
                        ok = first == ('ok', None) and fv == ('ok', None)
                    if not ok:
                        raise Violation('find_first%s gives %s and %s, find gives %s' % (q, first, fv, got[1]))
                    st.trace()
        if isinstance(name, str):
            lookups(d, nodes, name, derived)
    st.outcome(tuple(counts))
    for t, p, n in nodes:
        for name in ('aB', 'Pr', '0', 'nosuch', n + '.ab'):
            for value in (False, '1', 'x', None):
                want = [c for c in t.children if c.record_term_lc == name.lower().split('.')[-1] and (value is False or c.value == value)]
                if list(t.find(name, value)) != want or t.find_first(name, value) is not (want[0] if want else None):
                    raise Violation('find(%r, %r) in %r differs from %s' % (name, value, t, want))
    if snap(d) != before:
        raise Violation('searching changed the document')


def is_section(t):
    return t.join_lc in ('root.section', 'root.root')


def lookups(d, nodes, name, derived):
    found = d.find(name)
    marker = object()
    g = d.get(name, marker)
    if g is not (found[0] if found else marker):
        raise Violation('get(%r) gives %r, find gives %s' % (name, g, found))
    for sec in (None, 'SEC', 'root'):
        found = d.find(name, section=sec)
        v = d.get_value(name, marker, section=sec)
        if (v is not marker) != bool(found) or found and v != found[0].value:
            raise Violation('get_value(%r, section=%r) gives %r, find gives %s' % (name, sec, v, found))
    for s in d:
        for value in (False, '1'):
            want = d.find(name, value=value, section=s.name)
            if s.find(name, value) != want or s.find_first(name, value) is not (want[0] if want else None) \
                    or s.get_term(name, value) is not (want[0] if want else None) \
                    or s.find_first_value(name, value) != (want[0].value if want else None):
                raise Violation('search for %r, %r in section %s differs from %s' % (name, value, s.name, want))
        want = d.find(name, section=s.name)
        if s[name] is not (want[0] if want else None):
            raise Violation('section item %r is %r' % (name, s[name]))
