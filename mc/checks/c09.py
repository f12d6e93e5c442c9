"""C09: every history of edits leaves the document consistent, and equal to a model of nested ordered lists.

Breadth-first search over the operations of documents, sections and terms, from an empty and from a parsed document (and one operation
at every position of two larger documents).
All histories up to the first depth, and one history for each distinct model state beyond it, are replayed on a fresh
implementation document, which must then equal the model in sections, columns, terms, values and children, in order, with
all views (document terms, section terms, ownership, parents, search) consistent.
"""
from mc import gen, ops
from mc.common import Violation
from mc.impl import rows_doc, attempt
from mc.snap import snap, consistent

LEVEL = 'model_checking'

START = ops.Model(gen.BASE).canon()
PAIR_OPS = [['remove_term', 'Schema', 0, 'doc'], ['move', 'Schema', 0, 'contacts', 'move'], ['sort_terms', 'Contacts', ['root.wrangler']],
            ['del_section', 'schema'], ['sort_sections', ['schema', 'root']], ['remove_child', ['Schema', 0, 0]], ['new_child', ['Schema', 0, 1], 'Unit', 'u', {}],
            ['remove_add', 'Schema', 0, 'Root'], ['clean', 'Contacts']]


def bounds(tier):
    return (3, 4) if tier == 'thorough' else (2, 3)


def BOUNDS(tier):
    full, deep = bounds(tier)
    return dict(start_documents=len(ops.STARTS), all_histories_to_depth=full, one_per_state_to_depth=deep,
                larger_documents=2, larger_depth='every position, depth 1; %d first operations, depth 2' % len(PAIR_OPS))


def cases(tier):
    full, deep = bounds(tier)
    for k, h, m in ops.histories(ops.STARTS, full, deep):
        yield {'start': k, 'ops': h}
    # Every position of larger documents
    for k, rows, n in ((2, gen.BASE, 2 if tier == 'thorough' else 1), (3, gen.LARGE, 1)):
        for _, h, m in ops.histories([rows], n, n, ops=lambda m, rich: ops.enabled(m, rich, every=True)):
            yield {'start': k, 'ops': h}
    for op in PAIR_OPS:
        for _, h, m in ops.histories([gen.BASE], 1, 2, ops=lambda m, rich: [op] if m.canon() == START else ops.enabled(m, rich)):
            if len(h) > 1:
                yield {'start': 2, 'ops': h}


def run(case, st):
    rows = (ops.STARTS + [gen.BASE, gen.LARGE])[case['start']]
    m = ops.Model(rows)
    d = rows_doc(rows)
    removed = None
    for i, op in enumerate(case['ops']):
        m.apply(op)
        gone = targets(d, op) if i == len(case['ops']) - 1 else []
        got = attempt(ops.do, d, op)
        st.step()
        if got[0] != 'ok':
            raise Violation('operation %s raised %s' % (op, got[2]))
        result = got[1]
    st.trace()
    st.state(m.canon())
    have = tuple((n, cols, tuple(strv(t) for t in ts)) for n, cols, ts in snap(d, prov=False, types=False))
    st.outcome(have)
    if have != m.canon():
        raise Violation('document differs from the model after %s\n want %s\n got  %s' % (case['ops'], m.canon(), have))
    consistent(d, strict=True)

    if case['ops']:
        for t in gone:
            if any(x is t for x in d.all_terms) or any(x is t for x in d.terms):
                raise Violation('removed term %r is still found after %s' % (t, op))
        returned(d, op, result)

    # Search sees what the sections hold
    for s in d:
        for name in ('A', 'root.b', 'C', 'Root.*'):
            want = [t for t in s if name == 'Root.*' or t.record_term_lc == name.lower().split('.')[-1]]
            if list(map(id, d.find(name, section=s.name))) != list(map(id, want)):
                raise Violation('find(%r) in section %s gives %s, it holds %s' % (name, s.name, d.find(name, section=s.name), want))

    # Only top level terms can be in a section
    child = next((c for s in d for t in s for c in t.children), None)
    if child is not None:
        for s in list(d):
            if attempt(s.add_term, child)[0] == 'ok':
                raise Violation('child %r was added to section %s' % (child, s.name))
        again = tuple((n, cols, tuple(strv(t) for t in ts)) for n, cols, ts in snap(d, prov=False, types=False))
        if again != have:
            raise Violation('a child that could not be added to a section changed the document')
        consistent(d, strict=True)


def strv(t):
    return (t[0], None if t[1] is None else str(t[1]), tuple(strv(c) for c in t[2]))


def targets(d, op):
    """Term objects which the operation removes"""
    if op[0] == 'remove_term':
        return [list(d[op[1]])[op[2]]]
    if op[0] == 'remove_child':
        return [ops.term_at(d, op[1])]
    if op[0] == 'clean':
        return list(d[op[1]])
    if op[0] in ('del_section', 'new_section'):
        return list(d[op[1]]) if op[1] in d else []
    if op[0] == 'del_item':
        return [t for t in d[op[1]] if op[2].lower() in (t.record_term_lc, 'root.' + t.record_term_lc, '*.' + t.record_term_lc, 'root.*')]
    return []


def returned(d, op, r):
    """New and get-or-create operations return the term or section in the document"""
    if op[0] in ('new_term', 'get_or_new_term'):
        if not any(r is t for t in d[op[1]]) or r.record_term_lc != op[2].lower().split('.')[-1]:
            raise Violation('%s returned %r, which is not in the section' % (op, r))
    elif op[0] in ('new_child', 'get_or_new_child'):
        if not any(r is t for t in ops.term_at(d, op[1]).children) or r.record_term_lc != op[2].lower():
            raise Violation('%s returned %r, which is not a child' % (op, r))
    elif op[0] in ('new_section', 'get_or_new_section'):
        if r is not d[op[1]]:
            raise Violation('%s returned another section' % (op,))
