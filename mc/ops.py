"""Edit operations on a document: a model of nested ordered lists, and the same operation through metatab's interface.

An operation is a list of strings, numbers and lists. Terms are named by position: [section, i, j, k] is child k of
child j of term i of the section.
"""
from collections import deque

from mc import spec


class MT(object):
    """A term of the model"""
    __slots__ = ('name', 'value', 'children')

    def __init__(self, name, value, children=()):
        self.name, self.value, self.children = name, value, list(children)

    def copy(self):
        return MT(self.name, self.value, [c.copy() for c in self.children])

    def canon(self):
        return (self.name, self.value, tuple(c.canon() for c in self.children))

    def child(self, name):
        for c in self.children:
            if c.name == name.lower():
                return c


class MS(object):
    __slots__ = ('name', 'cols', 'terms')

    def __init__(self, name, cols, terms=()):
        self.name, self.cols, self.terms = name, list(cols), list(terms)


class Model(object):
    def __init__(self, rows=()):
        self.sections = []
        for s in spec.parse(rows).sections.values():
            self.sections.append(MS(s.name, s.cols, [self.conv(t) for t in s.terms]))

    @classmethod
    def conv(cls, t):
        return MT(t.name, t.value, [cls.conv(c) for c in t.children])

    def copy(self):
        m = Model.__new__(Model)
        m.sections = [MS(s.name, s.cols, [t.copy() for t in s.terms]) for s in self.sections]
        return m

    def canon(self):
        return tuple((s.name, tuple(spec.trim(s.cols)), tuple(t.canon() for t in s.terms)) for s in self.sections)

    def sec(self, name):
        for s in self.sections:
            if s.name.lower() == name.lower():
                return s

    def get(self, path):
        s = self.sec(path[0])
        t = None
        for i in path[1:]:
            t = s.terms[i] if t is None else t.children[i]
        return t

    # The operations. Values are as the implementation is given them.

    def apply(self, op):
        return getattr(self, 'op_' + op[0])(*op[1:])

    def op_new_term(self, sec, name, value, kw):
        t = MT(name.lower().split('.')[-1], norm(value), [MT(k.lower(), norm(v)) for k, v in kw.items()])
        self.sec(sec).terms.append(t)

    def op_get_or_new_term(self, sec, name, value, kw):
        for t in self.sec(sec).terms:
            if t.name == name.lower().split('.')[-1] and (value is False or t.value == norm(value)):
                for k, v in kw.items():
                    self._gonc(t, k, v)
                return
        self.op_new_term(sec, name, value, kw)

    def op_set_section_item(self, sec, name, value):
        self.op_get_or_new_term(sec, name, value, {})

    def op_set_terms(self, sec, kw):
        for k, v in kw.items():
            value, props = v if isinstance(v, list) else (v, {})
            self.op_new_term(sec, k, value, props)

    def op_new_child(self, path, name, value, kw):
        self.get(path).children.append(MT(name.lower().split('.')[-1], norm(value),
                                          [MT(k.lower(), norm(v)) for k, v in kw.items()]))

    def _gonc(self, t, name, value):
        c = t.child(name.split('.')[-1])
        if c is None:
            t.children.append(MT(name.lower().split('.')[-1], norm(value)))
        elif value is not False:
            c.value = norm(value)

    def op_get_or_new_child(self, path, name, value, kw):
        t = self.get(path)
        self._gonc(t, name, value)
        for k, v in kw.items():
            self._gonc(t.child(name.split('.')[-1]), k, v)

    def op_set_item(self, path, name, value):
        t = self.get(path)
        if name.lower() in ('value', '@value'):
            t.value = norm(value)
        elif value is None:
            c = t.child(name)
            if c is not None:
                t.children.remove(c)
        else:
            self._gonc(t, name, value)

    def op_set_value(self, path, value):
        self.get(path).value = norm(value)

    def op_add_child(self, path, name, value, kw):
        self.get(path).children.append(MT(name.lower(), norm(value), [MT(k.lower(), norm(v)) for k, v in kw.items()]))

    def op_remove_child(self, path, via='term'):
        t = self.get(path[:-1])
        del t.children[path[-1]]

    def op_remove_term(self, sec, i, via):
        del self.sec(sec).terms[i]

    def op_move(self, sec, i, sec2, via):
        if sec.lower() != sec2.lower():
            t = self.sec(sec).terms.pop(i)
            self.sec(sec2).terms.append(t)

    def op_remove_add(self, sec, i, sec2):
        t = self.sec(sec).terms.pop(i)
        self.sec(sec2).terms.append(t)

    def op_add_again(self, sec, i, via):
        pass

    def op_add_term(self, sec, name, value, kw):
        self.op_new_term(sec, name, value, kw)

    def op_del_item(self, sec, name):
        s = self.sec(sec)
        n = name.lower() if '.' in name else 'root.' + name.lower()
        s.terms = [t for t in s.terms if n not in ('root.' + t.name, 'root.*', '*.' + t.name, '*.*')]  # Top level terms only

    def op_clean(self, sec):
        self.sec(sec).terms = []

    def op_del_section(self, name):
        self.sections = [s for s in self.sections if s.name.lower() != name.lower()]

    def op_new_section(self, name, params):
        new = MS(name, params or [])
        if self.sec(name) is None:
            self.sections.append(new)
        else:  # Replaced in its place
            self.sections[self.sections.index(self.sec(name))] = new

    def op_get_or_new_section(self, name, params):
        if self.sec(name) is None:
            self.sections.append(MS(name, params or []))

    def op_sort_sections(self, order):
        o = [n.lower() for n in order]
        first = [self.sec(n) for n in o if self.sec(n) is not None]
        self.sections = first + [s for s in self.sections if s.name.lower() not in o]

    def op_sort_terms(self, sec, order):
        s = self.sec(sec)
        out = []
        rest = list(s.terms)
        for n in order or []:
            for t in list(rest):
                if n.lower() in ('root.*', 'root.' + t.name):
                    rest.remove(t)
                    out.append(t)
        s.terms = out + sorted(rest, key=lambda t: t.name)

    def op_add_arg(self, sec, arg, prepend):
        s = self.sec(sec)
        s.cols = [c for c in s.cols if c]
        if arg.lower() not in [c.lower() for c in s.cols]:
            s.cols = [arg.title()] + s.cols if prepend else s.cols + [arg.title()]

    def op_remove_arg(self, sec, arg):
        s = self.sec(sec)
        s.cols = [c for c in s.cols if c and c.lower() != arg.lower()]


def norm(v):
    if v is None or v is False:
        return None
    return str(v).strip() or None


# The implementation

def term_at(doc, path):
    s = doc[path[0]]
    t = None
    for i in path[1:]:
        t = list(s)[i] if t is None else t.children[i]
    return t


def do(doc, op):
    """Apply the operation to the document; returns what the operation returns"""
    from metatab import Term
    k, a = op[0], op[1:]
    if k == 'new_term':
        return doc[a[0]].new_term(a[1], a[2], **a[3])
    if k == 'get_or_new_term':
        return doc[a[0]].get_or_new_term(a[1], a[2], **a[3])
    if k == 'set_section_item':
        doc[a[0]][a[1]] = a[2]
        return
    if k == 'set_terms':
        return doc[a[0]].set_terms(**{n: tuple(v) if isinstance(v, list) else v for n, v in a[1].items()})
    if k == 'new_child':
        return term_at(doc, a[0]).new_child(a[1], a[2], **a[3])
    if k == 'get_or_new_child':
        return term_at(doc, a[0]).get_or_new_child(a[1], a[2], **a[3])
    if k == 'set_item':
        term_at(doc, a[0])[a[1]] = a[2]
        return
    if k == 'set_value':
        term_at(doc, a[0]).value = a[1]
        return
    if k == 'add_child':
        p = term_at(doc, a[0])
        c = Term(p.record_term + '.' + a[1], a[2], parent=p)
        for n, v in a[3].items():
            c.add_child(Term(c.record_term + '.' + n, v, parent=c))
        return p.add_child(c)
    if k == 'remove_child':
        p = term_at(doc, a[0][:-1])
        if a[1:] == ['doc']:
            return doc.remove_term(p.children[a[0][-1]])
        return p.remove_child(p.children[a[0][-1]])
    if k == 'remove_term':
        t = term_at(doc, a[:2])
        return (doc if a[2] == 'doc' else doc[a[0]]).remove_term(t)
    if k == 'move':
        t = term_at(doc, a[:2])
        return doc[a[2]].move_term(t) if a[3] == 'move' else doc[a[2]].add_term(t)
    if k == 'remove_add':
        t = term_at(doc, a[:2])
        doc.remove_term(t)
        return doc[a[2]].add_term(t)
    if k == 'add_again':
        t = term_at(doc, a[:2])
        return doc.add_term(t) if a[2] == 'doc' else doc[a[0]].add_term(t)
    if k == 'add_term':
        t = Term(a[1], a[2], doc=doc, section=doc[a[0]])
        for n, v in a[3].items():
            t.new_child(n, v)
        return doc.add_term(t)
    if k == 'del_item':
        del doc[a[0]][a[1]]
        return
    if k == 'clean':
        return doc[a[0]].clean()
    if k == 'del_section':
        del doc[a[0]]
        return
    if k == 'new_section':
        return doc.new_section(a[0], a[1])
    if k == 'get_or_new_section':
        return doc.get_or_new_section(a[0], a[1])
    if k == 'sort_sections':
        return doc.sort_sections(a[0])
    if k == 'sort_terms':
        return doc[a[0]].sort_by_term(a[1])
    if k == 'add_arg':
        return doc[a[0]].add_arg(a[1], prepend=a[2])
    if k == 'remove_arg':
        return doc[a[0]].remove_arg(a[1])
    raise ValueError(k)


def enabled(m, rich=True, every=False):
    """Operations that apply in this model state, simplest first. Finite: positions are the first and the last, or `every` one."""
    names = [s.name for s in m.sections]
    out = []

    def ends(n):
        return range(n) if every else sorted({0, n - 1}) if n else []

    for s in m.sections:
        out.append(['new_term', s.name, 'A', '1', {}])
        out.append(['new_term', s.name.upper(), 'Root.B', None, {'p': 'x'}])
        out.append(['get_or_new_term', s.name, 'a', False, {'q': 'y'}])
        out.append(['get_or_new_term', s.name, 'A', '2', {}])
        if rich:
            out.append(['set_section_item', s.name.lower(), 'B', '3'])
            out.append(['set_terms', s.name, {'C': '44', 'A': ['5', {'p': 'z'}]}])
            out.append(['add_term', s.name, 'C', '6', {'p': 'w'}])
        for i in ends(len(s.terms)):
            t = s.terms[i]
            out.append(['remove_term', s.name, i, 'doc'])
            out.append(['remove_term', s.name, i, 'section'])
            for s2 in m.sections:
                if s2 is not s:
                    out.append(['move', s.name, i, s2.name.lower(), 'move' if i else 'add'])
            out.append(['set_value', [s.name, i], 'n'])
            out.append(['new_child', [s.name, i], 'P', 'k', {'r': 'l'}])
            out.append(['get_or_new_child', [s.name, i], 'p', 'm', {}])
            out.append(['set_item', [s.name, i], 'Q', 'v'])
            out.append(['set_item', [s.name, i], 'p', None])
            if rich:
                out.append(['add_child', [s.name, i], 'q', 'u', {'p': 'g'}])
                out.append(['add_again', s.name, i, 'doc'])
                out.append(['add_again', s.name, i, 'section'])
                out.append(['remove_add', s.name, i, s.name])
                out.append(['remove_add', s.name, i, names[-1]])
                out.append(['get_or_new_child', [s.name, i], 'R', False, {'p': '8'}])
                out.append(['get_or_new_child', [s.name, i], 'p', '7', {'R': '9'}])
            for j in ends(len(t.children)):
                out.append(['remove_child', [s.name, i, j]])
                if rich:
                    out.append(['remove_child', [s.name, i, j], 'doc'])
                    out.append(['new_child', [s.name, i, j], 'P', 'g', {}])
                    if t.children[j].children:
                        out.append(['remove_child', [s.name, i, j, 0]])
        if s.terms:
            out.append(['del_item', s.name, 'A'])
            out.append(['sort_terms', s.name, None])
            if rich:
                out.append(['del_item', s.name, 'Root.B'])
                out.append(['del_item', s.name, 'B.P'])
                out.append(['del_item', s.name, 'root.*'])
                out.append(['del_item', s.name, '*.a'])
                out.append(['sort_terms', s.name, ['root.b']])
                out.append(['sort_terms', s.name, ['Root.B', 'nosuch.x', 'root.*']])
                if len(s.terms) > 1:
                    out.append(['sort_terms', s.name, ['root.c', 'root.a', 'root.c', 'root.a']])
                out.append(['clean', s.name])
        if s.name != 'Root':
            out.append(['del_section', s.name.lower()])
            out.append(['add_arg', s.name, 'p', False])
            out.append(['remove_arg', s.name, 'Q'])
            if rich:
                out.append(['add_arg', s.name, 'R', True])
                out.append(['remove_arg', s.name, 'p'])
        else:
            out.append(['add_arg', s.name, 'p', False])
            if s.cols:
                out.append(['remove_arg', s.name, 'P'])
    for n, p in (('S', ['p', 'q']), ('T', None)):
        if m.sec(n) is None or rich:
            out.append(['new_section', n, p])
        out.append(['get_or_new_section', n.lower() if m.sec(n) is not None else n, p])
    if len(m.sections) > 1:
        out.append(['sort_sections', ['T', 'nosuch', 'root']])
        out.append(['sort_sections', ['s']])
        out.append(['sort_sections', ['ROOT', 't', 's']])
        out.append(['sort_sections', ['s', 't', 'Root']])
        out.append(['del_section', 'nosuch'])
    return out


STARTS = [
    [],
    [['A', '1'], ['.P', 'x'], ['Section', 'S', 'p', 'q'], ['A', '1', 'a', 'b'], ['B', '2'], ['B.P', '3'], ['B.P', '4'], ['P.R', '5']],
]


def histories(starts, full, deep, rich=True, ops=enabled, on_model=None):
    """All operation histories up to length `full`, and up to length `deep` with one history per model state.

    Yields (start, history, model after it).
    """
    for k, rows in enumerate(starts):
        m = Model(rows)
        seen = {m.canon()}
        queue = deque([([], m)])
        yield k, [], m
        while queue:
            hist, m = queue.popleft()
            if len(hist) >= deep:
                continue
            for op in ops(m, rich):
                n = m.copy()
                n.apply(op)
                h = hist + [op]
                yield k, h, n
                c = n.canon()
                if len(h) < full or c not in seen:
                    seen.add(c)
                    queue.append((h, n))
