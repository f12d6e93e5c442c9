"""C19: a Metatab reference resolves to the metadata of its package, and all load routes give the same document.

All references built from a set of schemes, hosts, directories, names, queries and fragments are resolved and compared with the
reference that the rules give; and every document of a bounded set (all row sequences up to a depth, and larger documents) is
stored as a CSV and Lines file, a directory, a ZIP package (with other files before the metadata, or in a directory inside) and a
spreadsheet (with another sheet before the metadata), and loaded by every route: path, file URL, metatab reference, the document
of a parsed reference, and over HTTP from a server on the loopback interface. All routes must give the document of the rows.
"""
import csv
import http.server
import io
import itertools
import os
import shutil
import threading
import zipfile
from xml.sax.saxutils import escape

from mc import gen
from mc.common import Violation
from mc.impl import MetatabDoc, attempt, rows_doc, text_doc
from mc.snap import snap

LEVEL = 'model_checking'

SCHEMES = ['file', 'http', 'https', 's3']
HOSTS = {'file': ['', 'rel'], 'http': ['h.org', 'u@h.org:8080'], 'https': ['h.org', 'www.x.y.org:443'], 's3': ['buck']}
DIRS = ['', 'a', 'a/b', 'a/b.c', 'a b', 'x.csv', 'p.zip', 'metadata.csv.d', 'metadata']
# name, the kind of package
NAMES = [(None, 'dir'), ('', 'dir'), ('pkg', 'dir'), ('pkg.v1', 'dir'), ('pkg-1.2.3', 'dir'), ('pkg/', 'dir'), ('csv', 'dir'), ('metadata', 'dir'),
         ('metadata.csv', 'csv'), ('x.csv', 'csv'), ('X.CSV', 'csv'), ('x.y.csv', 'csv'), ('xmetadata.csv', 'csv'), ('x.txt', 'txt'),
         ('metadata.txt', 'txt'), ('x.ipynb', 'ipynb'), ('x.zip', 'zip'), ('x-1.2.3.zip', 'zip'), ('metadata.csv.zip', 'zip'),
         ('x.xlsx', 'xlsx'), ('metadata.csv.xlsx', 'xlsx')]
QUERIES = ['', '?q=1']
FRAGS = ['', '#foo', '#metadata.csv']

ROWSET = [
    ['Title', 'T'],
    ['Section', 'S', 'p', 'q'],
    ['A', '0', 'False', '#x'],
    ['A.B', 'b|c', '', 'é'],
    ['.C', '', 'z'],
    ['', '', 'w'],
    ['Section', 'Root', 'r'],
]
EXTRA = [gen.BASE, gen.BASE2, gen.LARGE, gen.WORDS, [], [['', ''], ['Title', 'T']],
         [['Title', 'A title: with | "x", é'], ['Section', 'S', 'p'], ['A', ' pad ', 'null'], ['A.B', '1.0', '007'], ['X', '日本']]]
KINDS = ['csv', 'txt', 'dir', 'zip', 'zipdir', 'xlsx']


def bounds(tier):
    return dict(rows=4) if tier == 'thorough' else dict(rows=3)


def BOUNDS(tier):
    return dict(references=sum(1 for _ in refs()), row_alphabet=len(ROWSET), rows=bounds(tier)['rows'], larger_documents=len(EXTRA), storage=KINDS)


def refs():
    for s in SCHEMES:
        for h, d, n, q, f in itertools.product(HOSTS[s], DIRS, range(len(NAMES)), QUERIES, FRAGS):
            if s == 'file' and q:
                continue
            if not d and NAMES[n][0] in (None, '') and h == 'rel':
                continue
            if NAMES[n][0] is None and d in ('x.csv', 'p.zip'):
                continue
            yield [s, h, d, n, q, f]


def cases(tier):
    for r in refs():
        yield dict(k='ref', r=r)
    for rows in EXTRA:
        yield dict(k='load', rows=rows)
    for rows in gen.sequences(ROWSET, bounds(tier)['rows']):
        yield dict(k='load', rows=rows)


def run(case, st):
    if case['k'] == 'ref':
        resolve(case['r'], st)
    else:
        load(case['rows'], st)


# References

def resolve(r, st):
    from rowgenerators import parse_app_url

    scheme, host, d, n, q, f = r
    name, kind = NAMES[n]
    path = '/'.join(e for e in (d, name) if e is not None and (e != '' or d and e is name))
    if scheme == 'file':
        ref = 'metatab+file:' + ('' if host == 'rel' else '///') + path
        path = path if host == 'rel' else '/' + path
        host = ''
    else:
        path = '/' + path
        ref = 'metatab+%s://%s%s' % (scheme, host, path)
    ref += q + f

    if kind == 'dir':
        path = path.rstrip('/') + '/metadata.csv' if path else 'metadata.csv'
    base = path.rsplit('/', 1)[-1]
    target, fmt, frag = {'dir': ('metadata.csv', 'csv', ''), 'zip': ('metadata.csv', 'csv', 'metadata.csv'), 'xlsx': ('meta', 'xlsx', 'meta')}.get(
        kind, (base, kind, ''))
    want = dict(proto='metatab', scheme=scheme, netloc=host, path=path, query=q[1:], target_file=target, target_format=fmt,
                resource_format='csv' if kind == 'dir' else kind, resource_file=base, frag=frag)
    st.state(tuple(sorted(want.items())))
    st.step()
    st.trace()

    def observe(u):
        return dict(proto=u.proto, scheme=u.scheme, netloc=u.netloc or '', path=u.path, query=u.query or '', target_file=u.target_file,
                    target_format=u.target_format, resource_format=u.resource_format, resource_file=u.resource_file,
                    frag=(u.fragment[0] or ''))

    def check(u, how, want=want):
        got = observe(u)
        for k in want:
            if got[k] != want[k]:
                raise Violation('%s of %s: %s is %r, not %r' % (how, ref, k, got[k], want[k]), key='ref %s %s %s %s' % (how, scheme, kind, k))

    u = attempt(parse_app_url, ref)
    st.outcome((ref, str(u[1])))
    if u[0] != 'ok':
        raise Violation('%s can not be resolved: %s' % (ref, u[2]), key='ref ' + kind)
    u = u[1]
    check(u, 'resolution')
    again = parse_app_url(str(u))
    st.step()
    if str(again) != str(u):
        raise Violation('%s resolves to %s and that to %s' % (ref, u, again), key='again ' + kind)
    check(again, 'second resolution')
    if kind in ('dir', 'csv') and path.endswith('/metadata.csv') and not q and scheme != 's3':  # rowgenerators can not join S3 paths
        j = attempt(quiet, u.join_target, 'data/d.csv')
        st.step()
        if j[0] != 'ok' or j[1].path != path[:-len('metadata.csv')] + 'data/d.csv' or j[1].scheme != scheme or (j[1].netloc or '') != host:
            raise Violation('a file of the package %s is %s' % (ref, j[1:]), key='join ' + kind)
    if scheme == 'file':
        r = u.get_resource()
        check(r, 'resource')
        st.step()
        if kind != 'zip':  # it does not exist here
            check(r.get_target(), 'target')
            st.step()


def quiet(f, *a):
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a)


# Loading

_srv = {}
_n = [0]


class Handler(http.server.SimpleHTTPRequestHandler):
    def log_message(self, *a):
        pass


def server():
    if 'url' not in _srv:
        h = lambda *a, **kw: Handler(*a, directory=_srv['dir'], **kw)  # noqa
        _srv['dir'] = os.path.abspath('.')
        _srv['srv'] = http.server.ThreadingHTTPServer(('127.0.0.1', 0), h)
        _srv['srv'].daemon_threads = True
        threading.Thread(target=_srv['srv'].serve_forever, daemon=True).start()
        _srv['url'] = 'http://127.0.0.1:%d/' % _srv['srv'].server_port
    return _srv['url']


def csv_text(rows):
    f = io.StringIO(newline='')
    csv.writer(f).writerows(rows)
    return f.getvalue()


def lines_text(rows):
    """The rows as Lines, or None if they have no Lines form of this simple kind"""
    out = []
    cols = []
    for r in rows:
        r = [str(c) for c in r]
        if any('|' in c or '\\' in c or c.strip() != c for c in r) or not r or not r[0] or r[0].lower() == 'header':
            return None
        while len(r) > 1 and not r[-1]:
            r.pop()
        if r[0].lower() == 'section':
            cols = r[2:]
            if not all(cols):
                return None
            out.append('')
            out.append('==== ' + '|'.join(r[1:]))
        else:
            if len(r) > 2 + len(cols):
                return None
            if r[0].startswith('.'):
                return None
            out.append('%s: %s' % (r[0], r[1] if len(r) > 1 else ''))
            for c, v in zip(cols, r[2:]):
                if v:
                    out.append('.%s: %s' % (c, v))
    return '\n'.join(out) + '\n'


def xlsx(path, sheets):
    def sheet(rows):
        out = ['<?xml version="1.0" encoding="UTF-8" standalone="yes"?><worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main">'
               '<sheetData>']
        for i, r in enumerate(rows, 1):
            out.append('<row r="%d">' % i)
            for j, c in enumerate(r):
                out.append('<c r="%s%d" t="inlineStr"><is><t xml:space="preserve">%s</t></is></c>' % (chr(65 + j), i, escape(c)))
            out.append('</row>')
        out.append('</sheetData></worksheet>')
        return ''.join(out)

    ns = 'http://schemas.openxmlformats.org'
    n = range(1, len(sheets) + 1)
    with zipfile.ZipFile(path, 'w') as z:
        z.writestr('[Content_Types].xml',
                   '<?xml version="1.0"?><Types xmlns="%s/package/2006/content-types"><Default Extension="rels" ContentType="application/vnd.'
                   'openxmlformats-package.relationships+xml"/><Default Extension="xml" ContentType="application/xml"/><Override '
                   'PartName="/xl/workbook.xml" ContentType="application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml"/>%s</Types>'
                   % (ns, ''.join('<Override PartName="/xl/worksheets/sheet%d.xml" ContentType="application/vnd.openxmlformats-officedocument.'
                                  'spreadsheetml.worksheet+xml"/>' % k for k in n)))
        z.writestr('_rels/.rels',
                   '<?xml version="1.0"?><Relationships xmlns="%s/package/2006/relationships"><Relationship Id="rId1" Type="%s/officeDocument/2006/'
                   'relationships/officeDocument" Target="xl/workbook.xml"/></Relationships>' % (ns, ns))
        z.writestr('xl/workbook.xml',
                   '<?xml version="1.0"?><workbook xmlns="%s/spreadsheetml/2006/main" xmlns:r="%s/officeDocument/2006/relationships"><sheets>%s'
                   '</sheets></workbook>' % (ns, ns, ''.join('<sheet name="%s" sheetId="%d" r:id="rId%d"/>' % (s[0], k, k)
                                                             for k, s in zip(n, sheets))))
        z.writestr('xl/_rels/workbook.xml.rels',
                   '<?xml version="1.0"?><Relationships xmlns="%s/package/2006/relationships">%s</Relationships>' % (
                       ns, ''.join('<Relationship Id="rId%d" Type="%s/officeDocument/2006/relationships/worksheet" Target="worksheets/sheet%d.xml"/>'
                                   % (k, ns, k) for k in n)))
        for k, (_, rows) in zip(n, sheets):
            z.writestr('xl/worksheets/sheet%d.xml' % k, sheet(rows))


def put(path, text):
    os.makedirs(os.path.dirname(path) or '.', exist_ok=True)
    with open(path, 'w', newline='', encoding='utf8') as f:
        f.write(text)


def load(rows, st):
    from rowgenerators import parse_app_url

    _n[0] += 1
    top = 'd%d' % _n[0]
    base = server()
    other = 'Title,other\n'
    text = csv_text(rows)
    put(top + '/pkg/metadata.csv', text)
    put(top + '/pkg/other.csv', other)
    put(top + '/pkg/metadata.txt', other)
    put(top + '/pkg.v1/metadata.csv', text)
    put(top + '/x.csv', text)
    put(top + '/metadata.csv', other)
    with zipfile.ZipFile(top + '/p.zip', 'w') as z:
        z.writestr('data/a.csv', other)
        z.writestr('a.csv', other)
        z.writestr('metadata.csv', text)
        z.writestr('z.csv', other)
    with zipfile.ZipFile(top + '/q-1.2.zip', 'w') as z:
        z.writestr('q-1.2/a.csv', other)
        z.writestr('q-1.2/metadata.csv', text)
    lines = lines_text(rows)
    ab = os.path.abspath(top)

    routes = []
    for p in (top + '/pkg/metadata.csv', top + '/x.csv'):
        routes += [('path', p), ('path', './' + p), ('path', os.path.abspath(p)), ('path', 'file:' + p), ('path', 'file://' + os.path.abspath(p)),
                   ('url', 'file:' + p), ('url', 'file://' + os.path.abspath(p))]
    for p in ('pkg', 'pkg/', 'pkg/metadata.csv', 'pkg.v1', 'x.csv', 'p.zip', 'q-1.2.zip'):
        for r in ('metatab+file:%s/%s' % (top, p), 'metatab+file://%s/%s' % (ab, p), 'metatab+%s%s/%s' % (base, top, p)):
            routes += [('path', r), ('doc', r), ('url', r)]
    routes += [('path', top + '/p.zip#metadata.csv'), ('path', 'file://' + ab + '/p.zip#metadata.csv'), ('path', base + top + '/pkg/metadata.csv'),
               ('path', base + top + '/p.zip#metadata.csv'), ('url', base + top + '/x.csv')]
    if rows and not all(not any(r) for r in rows):
        xlsx(top + '/b.xlsx', [('other', [['Title', 'other']]), ('meta', rows), ('meta2', [['Title', 'other']])])
        for r in ('metatab+file:%s/b.xlsx' % top, 'metatab+file://%s/b.xlsx' % ab, 'metatab+%s%s/b.xlsx' % (base, top)):
            routes += [('path', r), ('doc', r)]
        routes += [('path', top + '/b.xlsx#meta')]
    if lines is not None:
        put(top + '/x.txt', lines)
        put(top + '/pkg.v1/metadata.txt', lines)
        for p in ('x.txt', 'pkg.v1/metadata.txt'):
            for r in ('metatab+file:%s/%s' % (top, p), 'metatab+file://%s/%s' % (ab, p), 'metatab+%s%s/%s' % (base, top, p)):
                routes += [('path', r), ('doc', r), ('url', r)]

    routes += [('gen', r) for how, r in routes if how == 'doc' and not r.startswith('metatab+file:' + top)]

    want = attempt(lambda: rows_doc(rows))
    wants = ('ok', snap_(want[1], True), snap_(want[1], False)) if want[0] == 'ok' else ('error', want[1])
    st.state(wants)
    for how, r in routes:
        st.step()
        st.trace()
        tree = r.endswith('.txt')
        if how == 'path':
            got = attempt(MetatabDoc, r)
        elif how == 'url':
            got = attempt(lambda: MetatabDoc(parse_app_url(r)))
        elif how == 'gen':
            got = attempt(lambda: MetatabDoc(parse_app_url(r).generator))
        else:
            got = attempt(lambda: parse_app_url(r).doc)
        ok = got[0] == want[0] and (wants[2 if tree else 1] == snap_(got[1], not tree) if got[0] == 'ok' else got[1] == want[1])
        st.outcome((got[0], snap_(got[1], True) if got[0] == 'ok' else got[1]))
        if not ok:
            raise Violation('%s %s: %s\nwanted %s' % (how, r.replace(top, 'D'), snap_(got[1], True) if got[0] == 'ok' else got[1:], wants[:2]),
                            key='load %s %s' % (how, r.split('/')[-1]))
    shutil.rmtree(top)


def snap_(doc, prov):
    def strip(t):
        return t[:-2] + (tuple(strip(c) for c in t[-1]),) if prov else t[:-1] + (tuple(strip(c) for c in t[-1]),)

    s = snap(doc, prov=prov)
    return tuple((n, c, tuple(strip(t) for t in ts)) for n, c, ts in s)
