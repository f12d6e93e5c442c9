"""C12: names and versions are generated from identity terms, without side effects.

The product of presence and spelling of the identity parts, of the forms of the version (none, plain, all combinations of
semantic parts, absent, blank or set), of name and identifier, with every version request; and all histories up to a depth
of requests, updates, cleanups and edits of the version on a set of documents. Model: a record of the parts, with the name
and version rules written out; the whole document is compared after each step.
"""
import itertools
import re
import unicodedata

from mc.common import Violation
from mc.impl import attempt, rows_doc
from mc.snap import snap, val

LEVEL = 'model_checking'

PARTS = ['origin', 'dataset', 'time', 'space', 'grain', 'variant']
ASKS = [None, '7', '2.0', 'Foo-b', '+1', '+', '-1', '-', '+10', 3]
UUID = re.compile(r'^[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$')

PLAIN = [None, [''], ['1'], ['01'], ['v-1'], ['1.5'], [' 12 ']]  # Version rows: None is no Version term


def semvers():
    for comb in itertools.product((None, '', '2'), repeat=4):
        if any(c is not None for c in comb[:3]):
            yield ['9'] + [(n, v) for n, v in zip(('Major', 'Minor', 'Patch', 'Build'), comb) if v is not None]
    yield ['', ('Patch', '4'), ('Minor', '3'), ('Major', '2')]
    yield ['', ('Build', 'b1'), ('Major', '2')]
    yield ['', ('Minor', 'x'), ('Patch', 'p')]
    yield ['1', ('Note', 'n')]
    yield ['1', ('Build', '7')]


def rows_of(c):
    out = []
    if c.get('title'):
        out.append(['Title', 'T'])
    for n in ('Identifier', 'Name'):
        if c.get(n.lower()) is not None:
            out.append([n, c[n.lower()]])
    ps = [[p.title(), c[p]] for p in PARTS if c.get(p) is not None]
    out += ps[::-1] if c.get('rev') else ps
    v = c.get('version')
    if v is not None:
        out.append(['Version', v[0]])
        out += [['.' + n if i == 0 else 'Version.' + n, x] for i, (n, x) in enumerate(v[1:])]
    if c.get('decoy'):
        out += [['Section', 'Other']] + [[p.title(), 'decoy'] for p in PARTS] + [['Version', '99'], ['.Patch', '9'], ['Name', 'other'], ['Identifier', 'otherid']]
    return out


TEXTS = ['', '0', '9', '10', '99', '007', 'x', 'X', 'a.b', 'a_b', 'a-b', 'a--b', '-a', 'a-', '_', '-', '.', 'é', 'Ünï', '日本', 'a b', 'a  b', 'a/b', 'a\\b', "it's", 'a:b',
         'None', 'False', '1.0', '1.9', '-3', '1,000', 'a\tb', '#h', '%s', '{}', 'W' * 100, '(x)', 'a&b', '2001-01-01', '2001/2002']


def bounds(tier):
    return 4 if tier == 'thorough' else 3


STEPS = ([['as', a] for a in (None, '7', '+1', '-2')] +
         [['update', {}], ['update', {'create_term': True}], ['update', {'force': True}], ['update', {'mod_version': '+1'}],
          ['update', {'mod_version': None}], ['update', {'mod_version': '5', 'report_unchanged': False}], ['cleanse'],
          ['version'], ['ident'], ['set', 'version', '3'], ['set', 'patch', '8'], ['set', 'dataset', 'New'], ['set', 'name', 'mine']])

STARTS = [
    {},
    {'name': ''},
    {'name': 'old', 'dataset': 'D', 'version': ['1']},
    {'name': 'old', 'version': ['1']},
    {'identifier': 'id1', 'name': '', 'dataset': ''},
    {'identifier': 'id1', 'name': 'id1'},
    {'identifier': '', 'dataset': 'D', 'origin': 'o', 'version': ['', ('Major', '1'), ('Patch', '5')]},
    {'identifier': 'id1', 'name': 'x', 'dataset': 'D', 'version': ['', ('Major', ''), ('Minor', '3'), ('Build', 'b')], 'decoy': 1},
    {'name': 'o-d-1', 'dataset': 'D', 'origin': 'o', 'version': ['1'], 'title': 1},
]


def BOUNDS(tier):
    return dict(histories=bounds(tier), steps=len(STEPS), starts=len(STARTS), version_requests=len(ASKS),
                version_forms=len(PLAIN) + len(list(semvers())))


def cases(tier):
    vals = {'origin': (None, 'o', 'A-b  C.d'), 'dataset': (None, 'D s', ''), 'time': (None, '2002-2014'), 'space': (None, 'É/x'),
            'grain': (None, 'g', ' '), 'variant': (None, 'v_1')}
    for comb in itertools.product(*[vals[p] for p in PARTS]):
        for v in (None, ['1'], ['', ('Minor', '2')]):
            for rev in (0, 1):
                c = dict(zip(PARTS, comb))
                c.update(version=v, rev=rev, decoy=1 - rev, name='n', identifier='id1')
                yield {'doc': c, 'h': [['as', '+1'], ['as', None], ['update', {}], ['update', {}]]}
    for v in PLAIN + list(semvers()):
        for ds in (None, 'D'):
            for name in (None, '', 'old'):
                for ident in (None, '', 'id1'):
                    c = {'dataset': ds, 'version': v, 'name': name, 'identifier': ident, 'grain': 'g', 'title': 1, 'decoy': len(v or []) == 1}
                    for a in ASKS:
                        yield {'doc': c, 'h': [['as', a], ['cleanse'], ['as', a], ['cleanse']]}
                    for u in ('+1', '-1', 'x', None):
                        yield {'doc': c, 'h': [['update', {'mod_version': u, 'create_term': True}], ['update', {}], ['cleanse']]}
                    yield {'doc': c, 'h': [['version'], ['version'], ['ident'], ['cleanse']]}
    # Each part alone, in more spellings
    for p in PARTS + ['version', 'patch']:
        for x in TEXTS:
            c = {'dataset': 'Da ta', 'origin': 'Or', 'name': 'n', 'identifier': 'id1', 'version': ['1']}
            if p == 'patch':
                c['version'] = ['', ('Major', x), ('Minor', '0'), ('Patch', x), ('Build', x)]
            else:
                c[p] = [x] if p == 'version' else x
            yield {'doc': c, 'h': [['as', None], ['as', 'y' if x[:1] in ('', '+', '-') else x], ['version'], ['update', {}], ['update', {}], ['cleanse']]}
            for a in ('+1', '-1', '+0', '-0', '+91', '-100'):
                yield {'doc': c, 'h': [['as', a], ['version'], ['as', a], ['update', {'mod_version': a}], ['update', {}]]}
    # Names that are almost the generated one
    for name in ('or-da_ta-1', 'or-da-ta-1', 'Or-Da-ta-1', 'OR-DA-TA-1', 'or_da_ta_1', 'or da ta 1', 'or-da-ta', 'or-da-ta-1-', 'or-da-ta-01', 'or--da-ta-1', 'id1', 'ID1', 'An Id: 1'):
        for ident in (None, 'id1', 'or-da-ta-1', 'An Id: 1'):
            for ds in ('Da ta', 'da-ta', None):
                c = {'dataset': ds, 'origin': 'Or', 'name': name, 'identifier': ident, 'version': ['1']}
                for kw in ({}, {'force': True}, {'report_unchanged': False}, {'create_term': True}):
                    yield {'doc': c, 'h': [['update', kw], ['update', kw], ['cleanse'], ['update', {}]]}
                yield {'doc': c, 'h': [['cleanse'], ['cleanse']]}
    for c in STARTS:
        for n in range(1, bounds(tier) + 1):
            for h in itertools.product(range(len(STEPS)), repeat=n):
                yield {'doc': c, 'h': [STEPS[i] for i in h]}


# The model

def slug(v):
    v = ''.join(ch for ch in unicodedata.normalize('NFKD', v) if ord(ch) < 128).strip().lower()
    v = ''.join(ch for ch in v if ch.isalnum() or ch in '_-.' or ch.isspace())
    out = ''
    for ch in v:
        if ch == '-' or ch.isspace():
            if not out.endswith('-'):
                out += '-'
        else:
            out += ch
    return out


class Err(Exception):
    pass


class M(object):
    def __init__(self, c):
        def cl(v):
            return None if v is None else (v.strip() or None)
        self.parts = {p: cl(c.get(p)) for p in PARTS}
        self.has = {p: c.get(p) is not None for p in PARTS}
        self.name = (cl(c.get('name')),) if c.get('name') is not None else None
        self.ident = (cl(c.get('identifier')),) if c.get('identifier') is not None else None
        v = c.get('version')
        self.version = None if v is None else [cl(v[0])] + [[n.lower(), cl(x)] for n, x in v[1:]]

    def key(self):
        return (self.parts, self.name, self.ident, self.version)

    def copy_version(self):
        return None if self.version is None else [self.version[0]] + [list(e) for e in self.version[1:]]

    def sub(self, n):
        for e in self.version[1:]:
            if e[0] == n:
                return e

    def semver(self):
        return self.version is not None and any(self.sub(n) for n in ('major', 'minor', 'patch'))

    def update_version(self):
        if self.version is None:
            return None
        if self.semver():
            for n in ('major', 'minor', 'patch'):
                if not self.sub(n):
                    self.version.append([n, '1'])
                elif self.sub(n)[1] is None:
                    self.sub(n)[1] = '0'
            s = '.'.join(self.sub(n)[1] for n in ('major', 'minor', 'patch'))
            b = self.sub('build')
            if b and b[1]:
                s += '.' + b[1]
            self.version[0] = s
        return self.version[0]

    def generate(self, mod):
        self.update_version()
        sem = self.semver()
        if self.version is None:
            mv = None
        else:
            mv = self.sub('patch')[1] if sem else self.version[0]
        if mod is False:
            pass
        elif mod is None:
            mv = None
        elif str(mod)[0] in '+-':
            if mv is None or not re.match(r'^-?\d+$', mv):
                raise Err()
            n = int(mod[1:] or 1)
            mv = str(int(mv) + (n if mod[0] == '+' else -n))
        else:
            mv = str(mod)
        if mv is None:
            version = None
        elif self.version is None:
            version = mv
        else:
            if sem:
                self.sub('patch')[1] = mv
            else:
                self.version[0] = mv
            version = self.update_version()
        return '-'.join(slug(str(e).replace('-', '_')) for e in [self.parts[p] for p in PARTS] + [version] if e)

    def ensure(self):
        if self.ident is None or self.ident[0] is None:
            self.ident = ('<uuid>',)

    def update_name(self, force=False, create_term=False, report_unchanged=True, mod_version=False):
        self.ensure()
        if self.name is None:
            if not create_term:
                return {'no name'}
            self.name = (None,)
        if self.parts['dataset']:
            n = self.generate(mod_version)
            if n != self.name[0] or force:
                self.name = (n,)
                return {'changed'}
            return {'unchanged'} if report_unchanged else set()
        if self.name[0] is None:
            self.name = self.ident
            return {'identifier'}
        if self.name == self.ident:
            return {'unchanged'} if report_unchanged else set()
        return {'no dataset'}


def classify(msgs):
    out = set()
    for m in msgs:
        m = m.lower()
        for k, v in (('no root.name', 'no name'), ('changed name', 'changed'), ('did not change', 'unchanged'),
                     ('to the identifier', 'identifier'), ('no root.dataset', 'no dataset')):
            if k in m:
                out.add(v)
                break
        else:
            out.add(m)
    return out


def observe(d, case):
    def one(n):
        ts = list(t for t in d['Root'] if t.record_term_lc == n)
        if len(ts) > 1:
            raise Violation('several %s terms' % n)
        return ts[0] if ts else None
    ident = one('identifier')
    idv = val(ident.value) if ident else None

    def tok(v):
        return '<uuid>' if v and v == idv and case['doc'].get('identifier') in (None, '') and UUID.match(v) else v

    name = one('name')
    v = one('version')
    return dict(
        name=(tok(val(name.value)),) if name else None,
        ident=(tok(idv),) if ident else None,
        version=[val(v.value)] + [[c.record_term_lc, None if val(c.value) is None else str(c.value)] for c in v.children] if v else None,
        parts={p: (val(one(p).value) if one(p) else None) for p in PARTS},
        order=[t.record_term_lc for t in d['Root']],
        other=[snap_other(s) for s in d if s.name != 'Root'])


def snap_other(s):
    return (s.name, [(t.record_term_lc, t.value, len(t.children)) for t in s])


def run(case, st):
    c = dict(case['doc'])
    rows = rows_of(c)
    d = rows_doc(rows)
    m = M(c)
    other = [snap_other(s) for s in d if s.name != 'Root']
    order = [t.record_term_lc for t in d['Root']]
    for step in case['h']:
        k = step[0]
        st.step()
        before = snap(d)
        if k == 'as':
            saved = m.copy_version()
            try:
                want = ('ok', m.generate(step[1]))
            except Err:
                want = ('error', 'metatab')
            m.version = saved
            got = attempt(d.as_version, step[1])
            if got[:2] != want:
                raise Violation('as_version(%r)\n want %r\n got  %r' % (step[1], want, got))
            if snap(d) != before:
                raise Violation('as_version(%r) changed the document' % (step[1],))
        elif k == 'update':
            try:
                want = ('ok', m.update_name(**step[1]))
            except Err:
                want = ('error', 'metatab')
            got = attempt(lambda: classify(d.update_name(**step[1])))
            if got[:2] != want:
                raise Violation('update_name(%r)\n want %r\n got  %r' % (step[1], want, got))
            if want[0] == 'ok' and not step[1].get('mod_version') and not step[1].get('force'):
                after = snap(d)
                got = attempt(lambda: classify(d.update_name(**step[1])))
                if got[0] != 'ok' or 'changed' in got[1] or 'identifier' in got[1] or snap(d) != after:
                    raise Violation('updating the name again changed it: %r' % (got,))
        elif k == 'cleanse':
            m.update_name()
            got = attempt(d.cleanse)
            if got[0] != 'ok':
                raise Violation('cleanse failed: %r' % (got,))
            after = snap(d)
            d.cleanse()
            if snap(d) != after:
                raise Violation('cleanse is not idempotent')
        elif k == 'version':
            want = m.update_version()
            got = attempt(d.update_version)
            if got != ('ok', want):
                raise Violation('update_version\n want %r\n got  %r' % (want, got))
        elif k == 'ident':
            m.ensure()
            d.ensure_identifier()
        elif k == 'set':
            if step[1] == 'version' and m.version is not None and not m.semver():
                m.version[0] = step[2]
                d['Root'].find_first('Version').value = step[2]
            elif step[1] == 'patch' and m.version is not None and m.sub('patch'):
                m.sub('patch')[1] = step[2]
                d.find_first('Version.Patch', section='Root').value = step[2]
            elif step[1] == 'dataset':
                m.parts['dataset'] = step[2]
                d['Root'].get_or_new_term('Dataset').value = step[2]
            elif step[1] == 'name' and m.name is not None:
                m.name = (step[2],)
                d['Root']['Name'].value = step[2]
        o = observe(d, case)
        want = dict(name=m.name, ident=m.ident, version=m.version, parts=m.parts)
        st.state(m.key())
        st.outcome(o)
        for f, w in want.items():
            if o[f] != w:
                raise Violation('%s after %r\n want %r\n got  %r' % (f, step, w, o[f]))
        if o['other'] != other:
            raise Violation('%r changed another section' % (step,))
        if [n for n in o['order'] if n in order] != order:
            raise Violation('%r changed the order of the terms' % (step,))
    st.trace()
