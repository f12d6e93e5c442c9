"""C10: the dictionary form follows values, children and declared types.

All row sequences up to a depth, crossed with all assignments of the five child property types (and two value names) to the
names in them, declared in a declaration document. The dictionary form of the document, of each section and each term,
with and without value names, is compared with the reference model.
"""
import csv
import os
from itertools import product

from mc import gen, spec
from mc.common import Violation
from mc.impl import attempt, rows_doc
from mc.snap import plain, snap

LEVEL = 'model_checking'

TYPES = ['any', 'scalar', 'sequence', 'sconcat', 'bconcat']

ALPHA = [
    ['A', '1'],
    ['A.B', '2', 'x'],
    ['A.B', '3'],
    ['.C', '4'],
    ['A', '', 'y'],
    ['A.B', ''],
    ['Section', 'S', 'b', 'c'],
    ['A', '5', 'u', 'w'],
    ['B', '6'],
    ['B.C', '7'],
    ['.C', '8', 'z'],
]


def assignments(tier):
    """(type of A, of A.B, of A.C and B.C, value name of A)"""
    seen = []
    for a, b, c in product(TYPES, TYPES, TYPES):
        if a in ('any', 'sequence', 'sconcat') or b == c:
            seen.append((a, b, c, ''))
    for t in TYPES:
        seen.append((t, t, 'any', 'Val'))
        seen.append(('any', t, t, 'B'))  # the value name is the name of a child
    return seen


def few():
    out = [('any', 'any', 'any', '')]
    for t in TYPES[1:]:
        out += [(t, 'any', 'any', ''), ('any', t, 'any', ''), ('any', 'any', t, ''), (t, t, t, 'Val')]
    return out


def bounds(tier):
    return (3, 4) if tier == 'thorough' else (2, 3)


def BOUNDS(tier):
    d, d2 = bounds(tier)
    return dict(row_alphabet=len(ALPHA), depth_all_assignments=d, assignments=len(assignments(tier)),
                depth_few_assignments=d2, few_assignments=len(few()))


def fname(a):
    return 'd10-%s.csv' % '-'.join(a)


def setup(tier):
    for a in set(assignments(tier) + few()):
        write(a)


def write(a):
    with open(fname(a), 'w', newline='') as f:
        csv.writer(f).writerows(decl(a))


def decl(a):
    return [['Section', 'DeclaredTerms', 'TermValueName', 'ChildPropertyType'],
            ['DeclareTerm', 'A', a[3], a[0]],
            ['DeclareTerm', 'A.B', '', a[1]],
            ['DeclareTerm', 'A.C', 'cval', a[2]],
            ['DeclareTerm', 'B.C', '', a[2]],
            ['DeclareTerm', 'B', '', a[1]]]


def cases(tier):
    d, d2 = bounds(tier)
    for a in assignments(tier):
        for seq in gen.sequences(range(len(ALPHA)), d):
            yield {'decl': a, 'seq': seq}
    for a in few():
        for seq in gen.sequences(range(len(ALPHA)), d2, d + 1):
            yield {'decl': a, 'seq': seq}
    for base, rows in enumerate(BASES, 1):
        yield {'base': base}
        for i in range(sum(1 for _ in gen.row_edits(rows)) if base != 3 else 0):
            yield {'base': base, 'edit': i}


BASES = [gen.BASE, gen.BASE2, gen.LARGE, gen.WORDS]


def run(case, st):
    files = {}
    if 'base' in case:
        rows = BASES[case['base'] - 1]
        if 'edit' in case:
            rows = list(gen.row_edits(rows))[case['edit']]
    else:
        a = tuple(case['decl'])
        files = {fname(a): decl(a)}
        rows = [['Declare', fname(a)]] + [ALPHA[i] for i in case['seq']]

    doc = spec.Doc()
    try:
        spec.Parser(doc, files).parse(rows, path='m.csv' if files else None)
    except spec.SpecError:
        st.add('not_parsed')
        return
    st.step(doc.steps)
    got = attempt(rows_doc, rows)
    if got[0] != 'ok':
        raise Violation('parsing failed: %s' % (got[2],))
    d = got[1]
    before = snap(d)

    for names in (True, False):
        want = plain(spec.doc_dict(doc, names))
        st.state(repr(want))
        have = attempt(lambda: plain(d.as_dict(replace_value_names=names)))
        st.trace()
        st.outcome(repr(have))
        if have[0] == 'ok' and not names:
            have[1].pop('@value', None)  # the name of the Root section
        if have != ('ok', want):
            raise Violation('dictionary form (value names %s)\n want %s\n got  %s' % (names, want, have[1:]))

        def walk(t, m):
            w = plain(spec.to_dict(m, names))
            h = attempt(lambda: plain(t.as_dict(replace_value_names=names)))
            if h != ('ok', w):
                raise Violation('dictionary form of %r (value names %s)\n want %s\n got  %s' % (t, names, w, h[1:]))
            for c, mc in zip(t.children, m.children):
                walk(c, mc)

        for s, ms in zip(d, doc.sections.values()):
            w = plain(spec.mapping(ms.terms, names))
            h = attempt(lambda: plain(s.as_dict(replace_value_names=names)))
            if h[0] == 'ok' and isinstance(h[1], dict):
                h[1].pop('@value', None)
            elif not ms.terms:
                h = ('ok', {})  # a section without terms is its name
            if h != ('ok', w):
                raise Violation('dictionary form of section %s\n want %s\n got  %s' % (s.name, w, h[1:]))
            for t, m in zip(s, ms.terms):
                walk(t, m)
    if snap(d) != before:
        raise Violation('the dictionary form changed the document')

    # Same again, and the same for an equal document
    if repr(d.as_dict()) != repr(d.as_dict()) or repr(rows_doc(rows).as_dict()) != repr(d.as_dict()):
        raise Violation('the dictionary form differs for equal documents')
