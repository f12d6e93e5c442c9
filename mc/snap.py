"""Canonical form of an implementation document, in the shape of spec.canon, through the public interface"""
from mc.common import Violation
from mc.spec import trim, L


def val(v):
    return v if v not in ('',) else None


def snap_term(t, prov=True, types=True, depth=0):
    if depth > 40:
        raise Violation('the terms are nested in a cycle')
    d = [t.record_term_lc, val(t.value)]
    if types:
        d += [t.term_value_name.lower(), t.child_property_type]
    if prov:
        d += [t.row, t.col, t.section.name, t.file_name]
    return tuple(d) + (tuple(snap_term(c, prov, types, depth + 1) for c in t.children),)


def snap(doc, prov=True, types=True, cols=True):
    return tuple((s.name, tuple(str(e).strip() if e else '' for e in trim(s.property_names)) if cols else None,
                  tuple(snap_term(t, prov, types) for t in s))
                 for s in doc)


def plain(d):
    """A dictionary form as plain dicts and lists"""
    if isinstance(d, dict):
        return {k: plain(v) for k, v in d.items()}
    if isinstance(d, (list, tuple)):
        return [plain(v) for v in d]
    return val(d)


def key_order(d):
    """Keys in order, for comparing the order of mappings"""
    if isinstance(d, dict):
        return [(k, key_order(v)) for k, v in d.items()]
    if isinstance(d, (list, tuple)):
        return [key_order(v) for v in d]
    return None


def consistent(doc, declared=False, strict=False):
    """The views of the document agree. Raises Violation"""

    def fail(*a):
        raise Violation('inconsistent document: ' + ' '.join(str(e) for e in a), key='inconsistent ' + str(a[0]))

    for k, s in doc.sections.items():
        if s.name.lower() != k:
            fail('section key', k, s.name)
        if s.doc is not doc:
            fail('section of another document', k)

    seen = {}
    listed = [t for s in doc for t in s]
    for s in doc:
        for t in s:
            if id(t) in seen:
                fail('term is listed twice:', t)
            seen[id(t)] = t
            if t.section is not s:
                fail('term has another section:', t, s.name)
            if t.parent is not None and t.parent is not doc.root and not t.parent.term_is('root.root'):
                fail('top level term has a parent', t)

    ids = [id(t) for t in doc.terms]
    if len(ids) != len(set(ids)):
        fail('document lists a term twice')
    if not declared and set(ids) != set(seen):
        extra = [t for t in doc.terms if id(t) not in seen]
        missing = [t for t in listed if id(t) not in set(ids)]
        fail('document terms are not the section terms', 'extra', extra, 'missing', missing)
    for t in listed:
        if id(t) not in ids:
            fail('term of a section is not in the document', t)

    def walk(t, depth):
        if depth > 40:
            fail('cycle')
        if t.doc is not doc:
            fail('term of another document', t)
        for c in t.children:
            if id(c) in seen:
                fail('child is listed twice', c)
            seen[id(c)] = c
            if c.parent is not t:
                fail('child has another parent', c)
            if c.section is not t.section and (strict or c.section is None or c.section.doc is not doc):
                fail('child has another section', c)
            walk(c, depth + 1)

    for t in listed:
        walk(t, 0)

    at = [t for t in doc.all_terms if id(t) in seen]
    if [id(t) for t in at] != [id(t) for t in _order(doc)]:
        fail('all_terms are not the terms in document order')


def _order(doc):
    def rec(t):
        yield t
        for c in t.children:
            yield from rec(c)

    for s in doc:
        for t in s:
            yield from rec(t)
