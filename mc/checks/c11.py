"""C11: term properties read back what was last written.

All histories of writes up to a depth over an alphabet of writes (item, attribute, get-or-create with and without
properties, in three spellings of the name, to terms that were parsed with columns, with child rows, with a value name of
their own, and that were created through the interface), continued with one history per model state to a larger depth. After
each write every way of reading is compared with a model that maps property names to values, and the whole document with
the model document.
"""
import csv
from collections import deque

from mc import ops
from mc.common import Violation
from mc.impl import attempt, rows_doc
from mc.snap import consistent, snap, val

LEVEL = 'model_checking'

ROWS = [
    ['Title', 'T'],
    ['Section', 'S', 'eMail', 'url', 'Two Words'],
    ['Creator', 'bob', 'b@x', 'u'],
    ['.Tel', '555'],
    ['Creator.Org', 'acme', 'o@x'],
    ['Creator', 'eve', '', 'w'],
    ['Section', 'H'],
    ['Header', 'Label', 'Note', 'Value'],
    ['Thing', 'th', 'nn', 'vv'],
    ['Thing', 'ti'],
    ['Section', 'D', 'Kind'],
    ['Item', 'it', 'k'],
]
DECL = [['DeclareSection', 'D', 'Kind'], ['Section', 'DeclaredTerms', 'TermValueName', 'Section'], ['DeclareTerm', 'Item', 'ItemName', 'D']]

TARGETS = [['S', 0], ['S', 1], ['S', 0, 3], ['S', 2], ['H', 0], ['H', 1], ['D', 0]]
VNAME = {'H': 'label', 'D': 'itemname'}
COLS = {'S': ['email', 'url', 'two words'], 'H': ['note', 'value'], 'D': ['kind'], 'Root': []}
NAMES = {'S': ['Email', 'Url', 'Tel', 'Org', 'Two Words', 'description', '@value'],
         'H': ['Label', 'Note', 'Tel', 'value'],
         'D': ['ItemName', 'Kind', 'Tel']}


def setup(tier):
    with open('d11.csv', 'w', newline='') as f:
        csv.writer(f).writerows(DECL)


def start(rows=ROWS):
    d = rows_doc(rows, decl=['d11.csv'])
    d['S'].new_term('Helper', 'h', tel='1')
    m = ops.Model(rows)
    m.sections[0].terms.insert(0, ops.MT('declare', 'd11.csv'))
    m.op_new_term('S', 'Helper', 'h', {'tel': '1'})
    return d, m


def spellings(n):
    return [n.lower(), n.upper(), n.title()]


def writes(full=True):
    """The alphabet"""
    out = []
    for t in TARGETS:
        sec = t[0]
        for n in NAMES[sec]:
            for i, s in enumerate(spellings(n) if full else spellings(n)[:1]):
                for v in ('x', None) if i else (('x', 'Y z', None, '', '  pad ', '0') if full else ('x', None, '')):
                    out.append(['item', t, s, v])
                    if n.lower() in COLS[sec] or n.lower() == VNAME.get(sec) or n == 'value':
                        out.append(['attr', t, s, v])
                if n.lower() not in ('value', '@value', VNAME.get(sec)):
                    out.append(['gonc', t, s, 'g', {}])
                    if i == 0:
                        out.append(['gonc', t, s, False, {}])
                        out.append(['gonc', t, s, 'g', {'Sub': 'k'}])
                        out.append(['gonc', t, '.' + s, 'dot', {}])
        out.append(['attr', t, 'value', 'val'])
        out.append(['attr', t, 'value', None])
    return out


def bounds(tier):
    # length of all histories, with the full and with the reduced alphabet; length with one history per model state
    return (2, 2, 3) if tier == 'thorough' else (1, 2, 3)


def BOUNDS(tier):
    full, red, deep = bounds(tier)
    return dict(writes=len(writes()), reduced_writes=len(writes(False)), targets=len(TARGETS), all_histories=full,
                all_histories_reduced=red, one_history_per_state=deep, readers=14)


def model(m, op):
    kind, path, name, value = op[:4]
    t = m.get(path)
    n = name.lower().lstrip('.')
    if kind == 'gonc':
        m._gonc(t, n, value)
        for k, v in op[4].items():
            m._gonc(t.child(n), k, v)
        return
    if n == 'value' and kind == 'attr':
        t.value = ops.norm(value)
    elif n == VNAME.get(path[0], '@value') or (n == 'value' and t.child('value') is None):
        t.value = ops.norm(value)
    elif value is None:
        c = t.child(n)
        if c is not None:
            t.children.remove(c)
    else:
        m._gonc(t, n, value)


def valid(m, path):
    try:
        return m.get(path) is not None
    except IndexError:
        return False


def cases(tier):
    full, red, deep = bounds(tier)
    _, m0 = start()

    def bfs(alpha, allh, dedupe):
        seen = {m0.canon()}
        queue = deque([([], m0)])
        while queue:
            h, m = queue.popleft()
            if len(h) >= (dedupe or allh):
                continue
            for op in alpha:
                if not valid(m, op[1]):
                    continue
                n = m.copy()
                model(n, op)
                c = n.canon()
                yield h + [op]
                if len(h) + 1 < allh or (dedupe and c not in seen):
                    seen.add(c)
                    queue.append((h + [op], n))

    yield {'h': []}
    for h in bfs(writes(), full, 0):
        yield {'h': h}
    for h in bfs(writes(False), red, 0):
        if len(h) > full:
            yield {'h': h}
    # one history per model state, on three of the targets
    few = [w for w in writes(False) if w[1] in (['S', 0], ['H', 0], ['S', 0, 3])]
    if tier != 'thorough':
        few = [w for w in few if (w[0] != 'gonc' or not w[4]) and w[1] != ['S', 0, 3] and w[2] in ('email', 'tel', 'label', 'value')]
    for h in bfs(few, 1, deep):
        if len(h) > red:
            yield {'h': h}


def write(d, op):
    kind, path, name, value = op[:4]
    t = ops.term_at(d, path)
    if kind == 'item':
        t[name] = value
    elif kind == 'attr':
        setattr(t, name, value)
    else:
        c = t.get_or_new_child(name, value, **op[4])
        if not any(c is e for e in t.children):
            raise Violation('get_or_new_child did not return a child of the term')


class Missing(object):
    def __repr__(self):
        return 'Missing'


MISSING = Missing()
COMMON = ('url', 'name', 'description', 'schema')


def check(cond, op, what, *args):
    if not cond:
        raise Violation('%s: %s' % (what, ' '.join(repr(a) for a in args)), key=what)


def readers(d, m, path):
    t = ops.term_at(d, path)
    mt = m.get(path)
    sec = path[0]
    vname = VNAME.get(sec, '@value')
    names = [n for n in NAMES[sec]] + ['nosuch', 'name']

    check(val(t.value) == mt.value or (t.value or '').strip() == (mt.value or ''), None, 'value', t.value, mt.value)

    for n in names:
        lc = n.lower()
        c = mt.child(lc)
        for s in spellings(n):
            own = lc == vname or (lc == 'value' and c is None)
            # Item
            r = attempt(lambda: t[s])
            if own:
                check(r[0] == 'ok' and r[1] is t, None, 'item of the value name', s, r)
                check(t.get(s) is t and t.get_value(s) == t.value, None, 'get of the value name', s)
            elif c is None:
                check(r[0] == 'error' and r[1] == 'KeyError', None, 'item of a missing property', s, r)
                check(t.get(s) is None, None, 'get of a missing property', s)
                check(t.get(s, MISSING) is MISSING, None, 'get of a missing property with a default', s)
                check(t.get_value(s) is None and t.get_value(s, MISSING) is MISSING, None, 'get_value of a missing property', s)
            else:
                idx = [x.name for x in mt.children].index(lc)
                check(r[0] == 'ok' and r[1] is t.children[idx], None, 'item', s, r)
                check(val(r[1].value) == c.value, None, 'value of an item', s, r[1].value, c.value)
                check(t.get(s) is r[1] and t.get(s, MISSING) is r[1], None, 'get', s)
                check(val(t.get_value(s)) == c.value and val(t.get_value(s, MISSING)) == c.value, None, 'get_value', s)

            # Attribute
            if lc != 'value' and ' ' not in s:
                r = attempt(lambda: getattr(t, s))
                if own:
                    check(r == ('ok', t.value), None, 'attribute of the value name', s, r)
                elif c is not None:
                    check(r[0] == 'ok' and val(r[1]) == c.value, None, 'attribute', s, r, c.value)
                elif lc in COMMON:
                    check(r == ('ok', None), None, 'attribute of an unset common property', s, r)
                else:
                    check(r[0] == 'error' and r[1] == 'AttributeError', None, 'attribute of a missing property', s, r)

            # Membership
            if not own:
                check((s in t) == (c is not None or lc in COMMON or lc == 'value'), None, 'membership', s)

            # Search in the term
            if '@' not in s:
                want = [x for x, mx in zip(t.children, mt.children) if mx.name == lc]
                for q in (s, t.record_term + '.' + s):
                    got = list(t.find(q))
                    check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), None, 'find', q, got, want)
                    ff = t.find_first(q)
                    check(ff is (want[0] if want else None), None, 'find_first', q, ff)
                    check(t.find_first_value(q) == (want[0].value if want else None), None, 'find_first_value', q)
                    check(t.find_value(q) == (want[0].value if want else None), None, 'find_value', q)
                    for v in ('x', 'nope'):
                        got = list(t.find(q, v))
                        check([id(a) for a in got] == [id(a) for a in want if a.value == v], None, 'find with a value', q, v)
                        check(t.find_first(q, v) is (got[0] if got else None), None, 'find_first with a value', q, v)

                # Search in the document
                if s != spellings(n)[0] and n != NAMES[sec][0]:
                    continue
                parent = m.get(path[:-1]).name if len(path) > 2 else 'root'
                got = d.find(mt.name + '.' + s, section=sec)
                check([id(x) for x in got if x.parent is t] == [id(x) for x in want], None, 'search in the document', s, got)
                if c is not None and ' ' not in s and c.value and lc not in ('value',):
                    got = d.find(parent + '.' + mt.name, section=sec, **{s: r_value(t, lc)})
                    check(any(x is t for x in got), None, 'search by property', s, got)
                got = d.find(parent + '.' + mt.name, section=sec, **{s: 'no such value'}) if ' ' not in s and lc != 'value' else []
                check(got == [], None, 'search by another value of a property', s, got)

    # Dictionaries
    want = {x.name: x.value for x in mt.children}
    got = {k: val(v) for k, v in t.props.items()}
    check(got == want, None, 'props', got, want)
    got = {k: val(v) for k, v in t.all_props.items()}
    check({k: v for k, v in got.items() if v is not None} ==
          {k: v for k, v in dict([(vname, val(t.value))] + list(want.items())).items() if v is not None},
          None, 'all_props', got, want)
    check(set(want) <= set(got), None, 'all_props', got, want)
    names = [x.name for x in mt.children]
    check(len(names) == len(set(names)), None, 'one child per property', names)


def r_value(t, lc):
    for c in t.children:
        if c.record_term_lc == lc:
            return c.value


def tree(d):
    return tuple((s[0], tuple(strip(t) for t in s[2])) for s in snap(d, prov=False, types=False, cols=False))


def strip(t):
    return (t[0], ops.norm(t[1]), tuple(strip(c) for c in t[2]))


def run(case, st):
    d, m = start()
    for op in case['h']:
        model(m, op)
        st.step()
        r = attempt(write, d, op)
        if r[0] != 'ok':
            raise Violation('%r failed: %s' % (op, r[2]), key='%s failed %s' % (op[0], r[1]))
    st.state(m.canon())
    want = tuple((s.name, tuple(t.canon() for t in s.terms)) for s in m.sections)
    got = tree(d)
    if got != want:
        raise Violation('document after the writes\n want %r\n got  %r' % (want, got))
    before = snap(d)
    paths = [op[1] for op in case['h'][-1:]] or TARGETS
    for p in paths:
        if valid(m, p):
            readers(d, m, p)
    st.outcome(before)
    st.trace()
    if snap(d) != before:
        raise Violation('reading changed the document')
    consistent(d, declared=True, strict=True)
