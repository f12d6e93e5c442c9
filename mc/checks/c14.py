"""C14: registered term classes are used for exactly their terms.

The state is the registry of term classes. All histories of registrations (by class, by dotted name, in two spellings of the
term name) and unregistrations up to a depth; after each history a document is parsed (top level terms, children with a named
and with an elided parent, argument columns, included rows, terms that are declared to inherit) and extended through the
interface, and the class of every term is compared with the model registry.
"""
import csv
import itertools
import sys
import types

from mc.common import Violation
from mc.impl import attempt, rows_doc, MetatabDoc
from mc.snap import snap

from metatab import TermParser
from metatab.terms import Term, SectionTerm

LEVEL = 'model_checking'


class K1(Term):
    pass


class K2(Term):
    pass


# A module whose name has capital letters
MODULE = types.ModuleType('Module14')
MODULE.K2 = K2
sys.modules['Module14'] = MODULE

CLASSES = {'K1': K1, 'K2': K2}
DOTTED = {'K1': 'mc.checks.c14.K1', 'K2': 'Module14.K2'}
NAMES = ['root.a', 'a.b', 'b.c_1', 'root.d', 'd.b', 'aa.b']

DECL = [['DeclareSection', 'S'],
        ['Section', 'DeclaredTerms', 'Section', 'InheritsFrom', 'Synonym'],
        ['DeclareTerm', 'A', 'S', ''],
        ['DeclareTerm', 'A.B', 'S', ''],
        ['DeclareTerm', 'D', 'S', 'a'],
        ['DeclareTerm', 'D.E', 'S', 'A.B'],
        ['DeclareTerm', 'Syn', 'S', '', 'Root.A']]
SUPER = {'root.d': 'root.a', 'd.e': 'a.b'}

ROWS = [['A', '1'], ['.B', '2'], ['a.b', '3'], ['B.C_1', '4'], ['D', '5'], ['D.B', '6'], ['d.E', '6'], ['.e', '6'], ['ROOT.A', '7', 'arg'],
        ['Syn', '7'], ['Aa', '1'], ['Aa.B', '2'], ['.b', '3'],
        ['Section', 'S', 'B', 'C_1', '', 'e'],
        ['.A', '8'], ['A', '9', 'b9', 'c9', 'x'], ['B', '10', '', 'c10'], ['D', '11', 'b11', '', '', 'e11'], ['A', '12'], [' a . B ', '13', '', 'c13'], ['.C_1', '14'],
        ['Include', 'inc14.csv'], ['Title', 't']]
INC = [['A', '20', 'b20'], ['.B', '21'], ['Section', 'I', 'c_1'], ['B', '22', 'c22']]


def setup(tier):
    for n, rows in (('decl14.csv', DECL), ('inc14.csv', INC), ('m14.csv', [['Declare', 'decl14.csv']] + ROWS)):
        with open(n, 'w', newline='') as f:
            csv.writer(f).writerows(rows)


def alphabet(spellings, forms):
    for n in NAMES:
        for s in spellings(n):
            for k in CLASSES:
                for form in forms:
                    yield ['reg', s, k, form]
            yield ['unreg', s]


def bounds(tier):
    return (3, 4) if tier == 'thorough' else (2, 3)


def BOUNDS(tier):
    full, red = bounds(tier)
    return dict(histories=full, alphabet=len(list(alphabet(lambda n: [n, n.title()], ('class', 'name')))),
                histories_reduced=red, reduced=len(list(alphabet(lambda n: [n.upper()], ('class',)))), terms_per_document=30)


def cases(tier):
    full, red = bounds(tier)
    al = list(alphabet(lambda n: [n, n.title()], ('class', 'name')))
    for n in range(0, full + 1):
        if n == 3:  # the registry and what it holds do not depend on how it was spelled twice
            al = [a for a in al if a[0] == 'unreg' or (a[1][0].isupper()) == (a[3] == 'name')]
        for h in itertools.product(range(len(al)), repeat=n):
            yield {'h': [al[i] for i in h]}
    al = list(alphabet(lambda n: [n.upper()], ('class',)))
    for n in range(full + 1, red + 1):
        for h in itertools.product(range(len(al)), repeat=n):
            # nothing is removed that was not registered
            ok = True
            have = set()
            for i in h:
                if al[i][0] == 'reg':
                    have.add(al[i][1])
                elif al[i][1] not in have:
                    ok = False
                else:
                    have.discard(al[i][1])
            if ok:
                yield {'h': [al[i] for i in h]}


def want_class(reg, q, supers):
    q = q.lower()
    if q in reg:
        return reg[q]
    if q in supers and supers[q] in reg:
        return reg[supers[q]]
    return Term


def check(d, reg, what, supers=SUPER):
    n = 0

    def walk(t, parent):
        nonlocal n
        q = '%s.%s' % (parent, t.record_term_lc)
        w = want_class(reg, q, supers)
        n += 1
        if type(t) is not w:
            raise Violation('%s: term %s=%s is a %s, want %s (registered %s)' % (
                what, q, t.value, type(t).__name__, w.__name__, {k: v.__name__ for k, v in reg.items()}), key='class of %s' % q)
        for c in t.children:
            walk(c, t.record_term_lc)

    for s in d:
        if not isinstance(s, SectionTerm):
            raise Violation('%s: section %s is a %s' % (what, s.name, type(s).__name__))
        for t in s:
            walk(t, 'root')
    return n


def run(case, st):
    initial = dict(TermParser.term_classes)
    reg = {}
    plain = rows_doc([['A', '1'], ['A.B', '2']])
    try:
        for op in case['h']:
            st.step()
            if op[0] == 'reg':
                c = CLASSES[op[2]]
                arg = c if op[3] == 'class' else DOTTED[op[2]]
                (TermParser if op[1][0].isupper() else MetatabDoc).register_term_class(op[1], arg)
                reg[op[1].lower()] = c
            else:
                TermParser.unregister_term_class(op[1])
                reg.pop(op[1].lower(), None)
        st.state(tuple(sorted((k, v.__name__) for k, v in reg.items())))

        got = attempt(MetatabDoc, 'm14.csv')
        if got[0] != 'ok':
            raise Violation('parsing failed: %s' % got[2])
        d = got[1]
        n = check(d, reg, 'parsed')
        if n < 30:
            raise Violation('only %d terms were parsed' % n)
        check(plain, {}, 'a document from before')

        # The interface
        e = rows_doc([['Declare', 'decl14.csv'], ['A', '1'], ['Title', 'x'], ['Section', 'S', 'b']])
        t = e['Root'].new_term('A', '2', b='3', Z='4')
        t.new_child('B', '5', c_1='6')
        t.new_child('a.b', '5', C_1='6')
        t.get_or_new_child('b', '7', c_1='8')
        u = e['S'].new_term('Root.A', '9')
        u['B'] = '10'
        u['B']['C_1'] = '11'
        u.get_or_new_child('A.b', '12')
        e['S'].get_or_new_term('d', '13', B='14', e='15')
        e['S']['D'] = '15'
        e['S'].set_terms(A='16', d=('17', {'b': '18'}), Title='19')
        e['S'].new_term('B', '20').new_child('c_1', '21')
        check(e, reg, 'created')

        # Classes that are asked for
        for q in NAMES + ['root.zz', 'b.zz']:
            for s in (q, q.upper()):
                if e.get_term_class(s) is not want_class(reg, q, SUPER):
                    raise Violation('get_term_class(%r)' % s)
        plain2 = rows_doc([['Section', 'S'], ['A', '1'], ['D', '1'], ['D.B', '2']])
        check(plain2, reg, 'without declarations', {})
        st.outcome(repr([type(t).__name__ for t in d.all_terms]))
        st.trace()

        for q in list(reg):
            TermParser.unregister_term_class(q)
        if TermParser.term_classes != initial:
            raise Violation('the registry is not as before: %r' % TermParser.term_classes)
        check(rows_doc([['Declare', 'decl14.csv']] + [r for r in ROWS if r[0] != 'Include']), {}, 'unregistered')
        check(e, reg, 'created before unregistering')
    finally:
        TermParser.term_classes.clear()
        TermParser.term_classes.update(initial)
