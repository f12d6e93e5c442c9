"""C15: documents do not affect each other, in any interleaving.

A controlled scheduler runs the real code in threads of which one runs at a time. (rows) All interleavings, at row
granularity and with any number of switches, of two parses. (lines) One operation is suspended at each executed line of the
metatab package in turn while another operation on another document runs to its end. (calls, thorough) All pairs of
suspension points at function entry of two parses. (edits) All interleaved histories of edits of two documents up to a
depth, against two independent models. (failed) Every failing parse before every good one. Each document must be
what it is when it is handled alone.
"""
import csv
import itertools
import os
import sys
import threading

from mc import ops
from mc.common import Violation
from mc.impl import MetatabDoc, MetatabRowGenerator, attempt, rows_doc
from mc.snap import consistent, plain, snap

LEVEL = 'model_checking'
TECHNIQUE = 'stateless model checking of the real code under a controlled scheduler: all interleavings within bounds'

DECL1 = [['DeclareSection', 'S', 'p', 'q'],
         ['Section', 'DeclaredTerms', 'TermValueName', 'ChildPropertyType', 'Section', 'InheritsFrom'],
         ['DeclareTerm', 'A', 'av', 'sequence', 'S', ''],
         ['DeclareTerm', 'A.B', 'bv', 'scalar', 'S', ''],
         ['DeclareTerm', 'D', '', '', 'S', 'a']]
DECL2 = [['DeclareSection', 'S', 'r'],
         ['Section', 'DeclaredTerms', 'TermValueName', 'ChildPropertyType', 'Section'],
         ['DeclareTerm', 'A', 'other', 'scalar', 'S'],
         ['DeclareTerm', 'A.B', '', 'bconcat', 'S']]
INC = [['Section', 'I', 'i'], ['A', 'inc', 'x']]

DOCS = [
    [['Title', 'T1'], ['Section', 'S', 'p', 'q'], ['A', '1', 'x', 'y'], ['.B', '2', 'z']],
    [['Header', 'lab', 'h'], ['A', '3', 'w'], ['Section', 'S', 'r'], ['A', '4', 'v']],
    [['Declare', 'd15a.csv'], ['Section', 'S'], ['A', '5', 'u'], ['D', '6'], ['D.B', '6']],
    [['Declare', 'd15b.csv'], ['Section', 'S'], ['A', '7', 'u'], ['A.B', '8']],
    [['A', '9', 'k'], ['A.B', '10'], ['.C', '11'], ['Section', 'Root'], ['.E', '12']],
    [['Section', 'S', 'p'], ['Include', 'inc15.csv'], ['A', '13', 'l']],
    [['A', '14', 'm'], ['X.Y', '15']],  # fails
]

BAD = [
    [['X.Y', '1']],
    [['Section', 'S', 'b1', 'b2'], ['A', '1', 'x'], ['X.Y', '1']],
    [['Header', 'bad', 'h1'], ['A', '1', 'x'], ['Section', '']],
    [['Declare', 'd15a.csv'], ['A', '1'], ['Include', 'nosuch.csv']],
    [['Declare', 'd15a.csv'], ['Section', 'S'], ['Declare', 'nosuch.csv']],
    [['Declare', 'd15c.csv'], ['A', '1']],
    [['Title', 't'], ['Include', 'bad15.csv'], ['A', '1']],
]


def setup(tier):
    for n, rows in (('d15a.csv', DECL1), ('d15b.csv', DECL2), ('inc15.csv', INC),
                    ('d15c.csv', DECL2 + [['DeclareTerm', 'E', '', '', 'Nosuch']]),
                    ('bad15.csv', [['Section', 'Z', 'zz'], ['A', '1', '2'], ['X.Y', '1']])):
        with open(n, 'w', newline='') as f:
            csv.writer(f).writerows(rows)
    for i, rows in enumerate(DOCS):
        with open('m15-%d.csv' % i, 'w', newline='') as f:
            csv.writer(f).writerows(rows)
    for i, rows in enumerate(BAD):
        with open('b15-%d.csv' % i, 'w', newline='') as f:
            csv.writer(f).writerows(rows)


def observe(r):
    """What can be seen of a parsed document"""
    if r[0] != 'ok':
        return r[:2]
    d = r[1]
    return ('ok', snap(d), repr(plain(d.as_dict())), d.as_csv(), d.as_lines(),
            repr(sorted(d.decl_terms.items())), repr(sorted(d.decl_sections.items())),
            repr(sorted((k, sorted(v)) for k, v in d.derived_terms.items())), repr(d.errors),
            [t.value for t in d.find('A')], [t.value for t in d.find('*.B')])


# The scheduler: one thread runs at a time

class Task(threading.Thread):
    def __init__(self, fn):
        super().__init__(daemon=True)
        self.fn = fn
        self.go = threading.Semaphore(0)
        self.back = threading.Semaphore(0)
        self.done = False
        self.result = None

    def run(self):
        self.go.acquire()
        self.result = attempt(self.fn, self)
        self.done = True
        self.back.release()

    def pause(self):
        """Called in the thread: give the control back"""
        self.back.release()
        self.go.acquire()

    def step(self):
        """Called by the scheduler: run to the next pause or the end"""
        if not self.done:
            self.go.release()
            self.back.acquire()

    def finish(self):
        while not self.done:
            self.step()


class Rows(MetatabRowGenerator):
    """Rows of a file, with a pause before each"""

    def __init__(self, rows, task):
        super().__init__(rows)
        self.task = task

    def __iter__(self):
        for r in self._rows:
            self.task.pause()
            yield list(r)


def parse_task(i):
    def fn(task):
        return MetatabDoc(Rows([r for r in DOCS[i] if r[0] != 'Include'], task))
    return fn


def interleavings(a, b):
    for c in itertools.combinations(range(a + b), a):
        c = set(c)
        yield [0 if k in c else 1 for k in range(a + b)]


# Operations for the line level

def op_parse(i):
    return lambda d: MetatabDoc('m15-%d.csv' % i)


def op_do(op):
    def fn(d):
        ops.do(d, op)
        return d
    return fn


def op_read(fn):
    def f(d):
        d.seen = fn(d)
        return d
    return f


def dict_(d):
    return repr(plain(d.as_dict()))


OPS = {
    'parse0': op_parse(0), 'parse1': op_parse(1), 'parse2': op_parse(2), 'parse3': op_parse(3), 'parse4': op_parse(4),
    'parse5': op_parse(5), 'parse6': op_parse(6),
    'dict': op_read(dict_), 'csv': op_read(lambda d: d.as_csv()), 'lines': op_read(lambda d: d.as_lines()),
    'find': op_read(lambda d: [repr(t) for t in d.find(['A', '*.B'])]),
    'version': op_read(lambda d: d.as_version('+1')),
    'new': op_do(['new_term', 'S', 'A', '5', {'p': 'x'}]), 'section': op_do(['new_section', 'N', ['p']]),
    'remove': op_do(['remove_term', 'S', 0, 'doc']), 'move': op_do(['move', 'S', 0, 'Root', 'move']),
    'set': op_do(['set_item', ['S', 0], 'q', 'v']), 'sort': op_do(['sort_terms', 'S', None]),
}
BASE = [['Title', 'T'], ['Version', '3'], ['Section', 'S', 'p', 'q'], ['B', '1', 'x'], ['A', '2', 'y', 'z'], ['A.B', '3']]


def base():
    return rows_doc(BASE)


def bounds(tier):
    if tier == 'thorough':
        return dict(rows=len(DOCS), first=sorted(OPS), second=sorted(OPS), calls=[(0, 1), (2, 3), (3, 1), (0, 0)], edits=2)
    return dict(rows=len(DOCS), first=['parse1', 'parse2', 'parse4', 'dict', 'csv', 'lines', 'find', 'new', 'move'],
                second=['parse2', 'new'], calls=[], edits=2)


def BOUNDS(tier):
    b = bounds(tier)
    return dict(documents=len(DOCS), row_interleavings='all', suspended_operations=b['first'], other_operations=b['second'],
                suspension_points='every line executed in metatab', call_level_pairs=b['calls'], edit_histories=b['edits'],
                failing_documents=len(BAD))


CHUNK = 40


def cases(tier):
    b = bounds(tier)
    for i in range(len(BAD)):
        for j in range(len(DOCS)):
            yield {'k': 'failed', 'i': i, 'j': j}
    for i in range(b['rows']):
        for j in range(i, b['rows']):
            n = len(list(interleavings(steps(i), steps(j))))
            for c in range(0, n, CHUNK):
                yield {'k': 'rows', 'i': i, 'j': j, 'from': c}
    for o1 in b['first']:
        for o2 in b['second']:
            for c in range(8 if o1.startswith('parse') else 2):
                yield {'k': 'lines', 'o1': o1, 'o2': o2, 'part': c, 'of': 8 if o1.startswith('parse') else 2}
    for i, j in b['calls']:
        for c in range(64):
            yield {'k': 'calls', 'i': i, 'j': j, 'part': c, 'of': 64}
    for h in edit_histories(b['edits'], tier):
        yield {'k': 'edits', 'h': h}
    for k in range(len(SHARED)):
        yield {'k': 'shared', 'i': k}


def steps(i):
    return len([r for r in DOCS[i] if r[0] != 'Include']) + 1


def solo(i, cache={}):
    if i not in cache:
        cache[i] = observe(attempt(rows_doc, [r for r in DOCS[i] if r[0] != 'Include']))
    return cache[i]


def solo_file(n, cache={}):
    if n not in cache:
        cache[n] = observe(attempt(MetatabDoc, n))
    return cache[n]


def differ(what, a, b):
    if a != b:
        raise Violation('%s\n alone %r\n here  %r' % (what, a, b), key=what[:60])


def strip_class(o):
    # The file name of terms that were not read from a file is the name of the generator class
    return repr(o).replace('metatabrowgenerator', 'rows').replace("'rows'", "'rows'")


def run(case, st):
    globals()['run_' + case['k']](case, st)


def run_rows(case, st):
    i, j = case['i'], case['j']
    for n, sched in enumerate(interleavings(steps(i), steps(j))):
        if not case['from'] <= n < case['from'] + CHUNK:
            continue
        tasks = [Task(parse_task(i)), Task(parse_task(j))]
        for t in tasks:
            t.start()
        for s in sched:
            tasks[s].step()
            st.step()
        for t in tasks:
            t.finish()
            t.join()
        for k, t in zip((i, j), tasks):
            o = observe(t.result)
            st.outcome(o)
            differ('document %d, parsed with document %d in the order %s' % (k, j if t is tasks[0] else i, sched),
                   strip_class(solo(k)), strip_class(o).replace('rows1', 'rows'))
        st.state((i, j, tuple(sched)))
        st.add('schedules')
        st.trace()


PKG = None


def traced(fn, at, other, event):
    """Run fn; at the `at`th event in metatab code run other() to its end. Returns (result, number of events)"""
    import metatab
    pkg = os.path.dirname(os.path.realpath(metatab.__file__)) + os.sep
    n = 0

    def local(frame, ev, arg):
        nonlocal n
        if ev == event:
            n += 1
            if n == at:
                sys.settrace(None)
                try:
                    other()
                finally:
                    sys.settrace(tracer)
        return local

    def tracer(frame, ev, arg):
        if not frame.f_code.co_filename.startswith(pkg):
            return None
        if ev == 'call':
            return local(frame, ev, arg) if event == 'call' else local
        return local

    sys.settrace(tracer)
    try:
        r = attempt(fn)
    finally:
        sys.settrace(None)
    return r, n


def outcome(r):
    if r[0] != 'ok':
        return r[:2]
    d = r[1]
    o = observe(r)
    seen = d.__dict__.pop('seen', None)
    return (o, seen)


def run_lines(case, st):
    f1, f2 = OPS[case['o1']], OPS[case['o2']]
    d1 = base()
    r, total = traced(lambda: f1(d1), -1, None, 'line')
    alone1 = outcome(r)
    d2 = base()
    alone2 = outcome(attempt(f2, d2))
    for at in range(1 + case['part'], total + 1, case['of']):
        d1, d2 = base(), base()
        res = []
        r, n = traced(lambda: f1(d1), at, lambda: res.append(attempt(f2, d2)), 'line')
        what = '%s, suspended at line event %d of %d for %s' % (case['o1'], at, total, case['o2'])
        if not res:
            st.add('not_reached')  # the first execution ran more lines than this one, such as those that fill a cache
            res.append(attempt(f2, d2))
        differ('%s' % what, alone1, outcome(r))
        differ('the other of %s' % what, alone2, outcome(res[0]))
        st.step(2)
        st.state((case['o1'], case['o2'], at))
        st.add('schedules')
        st.trace()
    st.outcome((alone1, alone2))


def call_task(i):
    import metatab
    pkg = os.path.dirname(os.path.realpath(metatab.__file__)) + os.sep

    def fn(task):
        task.n = 0

        def tracer(frame, ev, arg):
            if ev == 'call' and frame.f_code.co_filename.startswith(pkg):
                task.n += 1
                if task.n == task.at:
                    task.pause()

        sys.settrace(tracer)
        try:
            return MetatabDoc('m15-%d.csv' % i)
        finally:
            sys.settrace(None)
    return fn


def calls_of(i):
    t = Task(call_task(i))
    t.at = -1
    t.start()
    t.finish()
    return t.n


def run_calls(case, st):
    i, j = case['i'], case['j']
    want = [solo_file('m15-%d.csv' % k) for k in (i, j)]
    for a in range(1 + case['part'], calls_of(i) + 1, case['of']):
        for b in range(1, calls_of(j) + 1, 3):
            ts = [Task(call_task(i)), Task(call_task(j))]
            ts[0].at, ts[1].at = a, b
            for t in ts:
                t.start()
            for s in (0, 1, 0, 1):
                ts[s].step()
            for t in ts:
                t.finish()
                t.join()
            for k, t, w in zip((i, j), ts, want):
                differ('document %d, suspended at calls %d and %d' % (k, a, b), w, observe(t.result))
            st.step(4)
            st.add('schedules')
            st.state((i, j, a, b))
            st.trace()


def run_failed(case, st):
    name = 'm15-%d.csv' % case['j']
    want = solo_file(name)
    for route in range(3):
        if route == 0:
            r = attempt(MetatabDoc, 'b15-%d.csv' % case['i'])
        elif route == 1:
            r = attempt(rows_doc, BAD[case['i']])
        else:
            d = rows_doc([['Section', 'S', 'p'], ['A', '1', 'x']])
            r = attempt(d.load_rows, MetatabRowGenerator(BAD[case['i']]))
        st.step()
        if r[0] == 'ok':
            raise Violation('a document that can not be parsed was parsed: %r' % (BAD[case['i']],))
        o = observe(attempt(MetatabDoc, name))
        st.step()
        differ('document %d after a failed parse' % case['j'], want, o)
        st.outcome(o)
        st.state((case['i'], case['j'], route))
        st.trace()


# Edits

START = [['A', '1'], ['.P', 'x'], ['Section', 'S', 'p', 'q'], ['A', '2', 'a', 'b'], ['B', '3']]


def edit_ops(m, tier):
    for op in ops.enabled(m, rich=(tier == 'thorough')):
        yield op


def edit_histories(depth, tier):
    m = ops.Model(START)
    level = [([], m, m)]
    for n in range(depth):
        nxt = []
        for h, m1, m2 in level:
            for who in (0, 1):
                if n == 0 and who == 1:
                    continue  # the documents are equal
                for op in edit_ops((m1, m2)[who], tier):
                    c = (m1, m2)[who].copy()
                    c.apply(op)
                    item = (h + [[who, op]], c if who == 0 else m1, c if who == 1 else m2)
                    yield item[0]
                    nxt.append(item)
        level = nxt


def tree(d):
    return snap(d, prov=False, types=False)


def mtree(m):
    return tuple((s.name, tuple(spec_trim(s.cols)), tuple(t.canon() for t in s.terms)) for s in m.sections)


def spec_trim(c):
    from mc.spec import trim
    return trim(c)


def norm(c):
    return tuple((n, tuple(e.lower() for e in cols), tuple(ntree(t) for t in ts)) for n, cols, ts in c)


def ntree(t):
    return (t[0], ops.norm(t[1]), tuple(ntree(x) for x in t[2]))


def run_edits(case, st):
    shared = [list(r) for r in START]
    docs = [MetatabDoc(MetatabRowGenerator(shared)), MetatabDoc(MetatabRowGenerator(shared))]
    ms = [ops.Model(START), ops.Model(START)]
    for who, op in case['h']:
        ms[who].apply(op)
        r = attempt(ops.do, docs[who], op)
        st.step()
        if r[0] != 'ok':
            raise Violation('%r failed: %s' % (op, r[2]))
    for k in (0, 1):
        w, g = norm(mtree(ms[k])), norm(tree(docs[k]))
        if w != g:
            raise Violation('document %d\n want %r\n got  %r' % (k, w, g))
        consistent(docs[k])
    st.state((ms[0].canon(), ms[1].canon()))
    st.outcome(tree(docs[0]))
    st.trace()


# Terms, sections and declarations of one document given to another

def sh_add(d, e, sec, via):
    t = list(d[sec])[0]
    if via == 'doc':
        e.add_term(t)
    elif via == 'section':
        e.get_or_new_section('N', ['n']).add_term(t)
    else:
        e['Root'].set_terms(t)


SHARED = [('add', sec, via, after) for sec in ('Root', 'S') for via in ('doc', 'section', 'set')
          for after in ('new', 'del', 'args', 'sort', 'clean')] + [('decl', a, b) for a in (0, 1) for b in (0, 1)]


def run_shared(case, st):
    c = SHARED[case['i']]
    if c[0] == 'decl':
        names = ['d15a.csv', 'd15b.csv']
        lst = [names[c[1]]]
        w1 = decls(MetatabDoc(decl=[names[c[1]]]))
        d = MetatabDoc(decl=lst)
        e = MetatabDoc(decl=lst)
        differ('declarations with a shared list', w1, decls(d))
        e.load_declarations([names[c[2]]])
        e.new_section('S').add_arg('zz')
        e.new_section('S').new_term('A', '1')
        e.load_rows(MetatabRowGenerator([['Declare', names[c[2]]], ['Section', 'S'], ['A', '1']]))
        differ('declarations after those of another document changed', w1, decls(d))
        differ('declarations of a new document', w1, decls(MetatabDoc(decl=lst)))
        if lst != [names[c[1]]]:
            raise Violation('the list of declarations was changed: %r' % lst)
        st.state(case['i'])
        st.step(4)
        st.trace()
        return
    d, e = rows_doc(START), rows_doc([['Title', 'E'], ['Section', 'S', 'z'], ['C', '1', 'k']])
    want = tree(d)
    sh_add(d, e, c[1], c[2])
    differ('the document whose term was added to another one', want, tree(d))
    for s in d:
        if s.doc is not d:
            raise Violation('section %s belongs to another document' % s.name)
    if sum(1 for s in e for t in s if t is list(d[c[1]])[0]) != 1:
        raise Violation('the term is not in the other document, or more than once')
    # Edits of the other document that are not of the shared term
    sec = {'doc': c[1], 'section': 'N', 'set': 'Root'}[c[2]]
    if c[3] == 'new':
        e[sec].new_term('New', '1', p='2')
    elif c[3] == 'del':
        e.new_section('Z')
        del e['Z']
    elif c[3] == 'args':
        e[sec].add_arg('extra')
        e[sec].remove_arg('p')
    elif c[3] == 'sort':
        e[sec].sort_by_term()
        e.sort_sections(['S', 'Root'])
    else:
        for s in e:
            if s.name != sec:
                s.clean()
    differ('the document whose term was added to another one, which was edited (%s)' % c[3], want, tree(d))
    d['S'].new_term('X', '9')
    d.new_section('Q', ['w'])
    if any(t.record_term_lc == 'x' for s in e for t in s) or 'Q' in e:
        raise Violation('an edit of one document is visible in the other')
    st.state(case['i'])
    st.step(3)
    st.trace()


def decls(d):
    return (repr(sorted(d.decl_terms.items())), repr(sorted(d.decl_sections.items())),
            repr(sorted((k, sorted(v)) for k, v in d.derived_terms.items())))
