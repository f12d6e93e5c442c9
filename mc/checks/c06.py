"""C06: included documents are read in place, and include errors are reported.

All include graphs over three files in two directories (each file with up to two Include rows that name a file, itself,
a missing, empty or unreadable file, a directory, or nothing), crossed with the section contexts around the Include rows and the contents of
the included files; includes of files of a web server (on the loopback interface), and Declare rows. The real files are parsed and compared with the reference model, in every term, section, file name and row.
"""
import csv
import os
import posixpath
import shutil

from mc import spec
from mc.common import Violation
from mc.impl import attempt, MetatabDoc
from mc.snap import snap, consistent

from metatab import TermParser

LEVEL = 'model_checking'

FILES = {'a': 'a.csv', 'b': 'Sub/B_1.csv', 'c': 'Sub/Deep-dir/c.x.csv'}

PRE = {
    'a': [[], [['Section', 'S', 'p', 'q'], ['A', '1', 'x', 'y']], [['Header', 'v', 'h', 'i'], ['A', '1', 'x', 'y']],
          [['A', '0', 'x'], ['Section', 'T', 'r'], ['A', '1', 'x', 'y'], ['.E', 'e']]],
    'b': [[['B', '2', 'w']], [['Section', 'T', 'k'], ['B', '2', 'w']], [['.E', 'e2'], ['Section', 'S', '', 'n'], ['B', '2', 'w', 'ww']],
          [['Header', 'vb', 'hb'], ['B', '2', 'w']]],
    'c': [[['C', '3', 'u', 'uu']], [['Section', 'S', 'm'], ['C', '3', 'u', 'uu']], [['Section', 'W', 'o'], ['Header', 'vc', 'hc'], ['C', '3', 'u', 'uu']],
          []],
}
POST = {
    'a': [[['Z', '9', 'zz', 'yy'], ['.F', 'f']], [['Section', 'S'], ['Z', '9', 'zz', 'yy']]],
    'b': [[['Y', '8', 'bb', 'cc']], [['Section', 'Root'], ['Y', '8', 'bb', 'cc']]],
    'c': [[['X', '7', 'cc']]],
}
ODD = ['missing', 'blank', 'dir', 'binary', 'empty']
# Files and addresses that can't be read, for a part of the graphs
BAD = {'zip': 'Sub/bad.zip', 'xlsx': 'Sub/bad.xlsx', 'xls': 'Sub/bad.xls', 'notype': 'Sub/bad.nosuch', 'url': 'http://[bad/x.csv', 'down': 'http://127.0.0.1:1/down.csv',
       'downs': 'https://127.0.0.1:1/down.csv', 'slash': 'Sub/nosuch/', 'sheet': 'Sub/bad.xlsx#1'}


_n = [0]


def web(to):
    """The URL of a file on the server, and its path. The URLs of each case are new, because files from the web are cached"""
    from mc.checks.c19 import server
    p = 'w%d/%s.csv' % (_n[0], {'web': 'B_2', 'web2': 'c', 'webmissing': 'nosuch'}[to])
    return server() + p, p


def name(frm, to):
    """The text of an Include row in file `frm` for the target"""
    if to.startswith('web'):
        return web(to)[0]
    if to == 'missing':
        return 'nosuch.csv'
    if to == 'blank':
        return ''
    if to in BAD:
        return BAD[to] if ':' in BAD[to] else posixpath.relpath(BAD[to], posixpath.dirname(FILES[frm]) or '.')
    if to in ('binary', 'empty'):
        return posixpath.relpath('Sub/%s.csv' % {'empty': 'https'}.get(to, to), posixpath.dirname(FILES[frm]) or '.')
    if to == 'dir':
        return posixpath.relpath('Sub', posixpath.dirname(FILES[frm]) or '.')
    return posixpath.relpath(FILES[to], posixpath.dirname(FILES[frm]) or '.')


def BOUNDS(tier):
    return dict(files=3, directories=3, include_rows_per_file=2, contexts={k: len(v) for k, v in PRE.items()},
                declare_rows="in the place of the Include rows, for a part of the graphs", continuations={k: len(v) for k, v in POST.items()}, targets='every file, missing, blank, a directory, not text, empty, on a web server (present, missing)')


def cases(tier):
    # Only files that can be reached vary
    thorough = tier == 'thorough'
    singles = [[]] + [[t] for t in ('b', 'c', 'a')] + [[t] for t in ODD]
    doubles = [['b', 'c'], ['c', 'b'], ['b', 'b'], ['c', 'c'], ['b', 'missing'], ['c', 'a'], ['b', 'a']]

    def options(f, full):
        for p in range(len(PRE[f])):
            for q in range(len(POST[f])):
                for inc in singles + (doubles if full else []):
                    yield [p, q, inc]

    A = list(options('a', True))
    B = list(options('b', thorough))
    C = list(options('c', thorough))
    if not thorough:
        B = [o for o in B if o[1] == 0 or o[2] in ([], ['c'])]
    for a in A:
        if not a[2] or not ({'b', 'c'} & set(a[2])):
            yield {'a': a}
            continue
        for b in (B if 'b' in a[2] else [None]):
            reach = set(a[2]) | set(b[2] if b else [])
            if len(a[2]) == 2 and not thorough and b and b[0] > 1:
                continue
            for c in (C if 'c' in reach else [None]):
                if c and 'b' in c[2] and b is None:
                    for b2 in ([0, 0, []], [1, 0, ['c']], [2, 0, []]):
                        yield {'a': a, 'b': b2, 'c': c}
                else:
                    yield {'a': a, 'b': b, 'c': c}
    # Declare rows: the same errors, and no terms
    for p in range(len(PRE['a'])):
        for inc in [['!' + t] for t in ['b', 'c', 'a'] + ODD] + [['!b', 'c'], ['c', '!b'], ['!b', '!b']]:
            reach = {t.strip('!') for t in inc}
            for b in ([[q, 0, i] for q in range(len(PRE['b'])) for i in singles + [['!c'], ['!a'], ['!missing'], ['!blank'], ['!b'], ['!binary']]]
                      if 'b' in reach else [None]):
                if b and {'c', '!c'} & set(b[2]) or 'c' in reach:
                    for c in ([0, 0, []], [1, 0, []], [0, 0, ['b']], [0, 0, ['a']], [0, 0, ['missing']], [0, 0, ['!b']]):
                        if b is not None or not {'b', '!b'} & set(c[2]):
                            yield {'a': [p, 0, inc], 'b': b, 'c': c}
                else:
                    yield {'a': [p, 0, inc], 'b': b}
    for p in range(len(PRE['a'])):
        for t in BAD:
            for k in ('', '!'):
                yield {'a': [p, 0, [k + t]]}
                for i in ('', '!'):
                    yield {'a': [p, 0, [i + 'b']], 'b': [p, 0, [k + t]]}
    # Included over HTTP
    for p in range(len(PRE['a'])):
        for q in range(len(POST['a'])):
            for inc in (['web'], ['web', 'b'], ['b', 'web'], ['web', 'web'], ['webmissing'], ['!web'], ['!web', 'b'], ['!webmissing'], ['b']):
                for w in range(len(PRE['b'])):
                    for winc in ([], ['web2'], ['webmissing'], ['web']):
                        if inc == ['b'] or not winc or p == w:
                            yield {'a': [p, q, inc], 'b': [p, 0, ['web'] if inc == ['b'] else []], 'web': [w, winc]}
    # The first row of a document includes, and the document is named in other ways
    for route in ('relative', 'url', 'chdir'):
        for a in A[:len(singles) * 4]:
            yield {'a': a, 'b': [1, 1, ['c']], 'c': [0, 0, []], 'route': route}


def rows_of(f, opt):
    p, q, inc = opt
    rows = list(PRE[f][p])
    for i, t in enumerate(inc):
        if i:
            rows.append(['M', str(i), 'mm'])
        rows.append(['Declare', name(f, t[1:])] if t.startswith('!') else ['Include', name(f, t)])
    return rows + POST[f][q]


def listed(path):
    """The file, row and term of the errors that a parser lists"""
    d = MetatabDoc()
    p = TermParser(path, doc=d)
    try:
        list(p)
    except Exception:
        pass
    return [(e['file'], e['row'], e['term'].lower()) for e in p.errors_as_dict()]


def run(case, st):
    _n[0] += 1
    files = {FILES[f]: rows_of(f, case[f]) for f in 'abc' if case.get(f)}
    if case.get('web'):
        w, winc = case['web']
        files[web('web')[0]] = PRE['b'][w] + [['Include', web(t)[0]] for t in winc] + POST['b'][0]
        files[web('web2')[0]] = PRE['c'][w]

    files['Sub/https.csv'] = []
    doc = spec.Doc()
    try:
        spec.Parser(doc, files).parse(files['a.csv'], path='a.csv', file='a.csv')
        want = ('ok', spec.canon(doc))
    except spec.SpecError as e:
        want = ('error', e.kind)
        at = e.at
        culprit = posixpath.basename(str(e).split(' ')[-1])
    st.step(doc.steps)
    st.state(want)

    shutil.rmtree('inc', ignore_errors=True)
    os.makedirs('inc/Sub/Deep-dir')
    for path, rows in files.items():
        if path.startswith('http'):
            path = path.split('/', 3)[-1]
            os.makedirs(os.path.dirname(path), exist_ok=True)
        else:
            path = os.path.join('inc', path)
        with open(path, 'w', newline='') as f:
            csv.writer(f).writerows(rows)

    with open('inc/Sub/binary.csv', 'wb') as f:
        f.write(b'Title,\xff\xfe\x80\n')

    for p in BAD.values():
        if p.startswith('Sub/bad'):
            with open(os.path.join('inc', p.split('#')[0]), 'wb') as f:
                f.write(b'A,1\n')

    path = os.path.abspath('inc/a.csv')
    route = case.get('route')
    cwd = os.getcwd()
    try:
        if route == 'relative':
            path = 'inc/a.csv'
        elif route == 'url':
            path = 'file://' + path
        elif route == 'chdir':
            os.chdir('inc')
            path = 'a.csv'
        got = attempt(MetatabDoc, path)
        errors = attempt(listed, path) if want[0] == 'error' else None
    finally:
        os.chdir(cwd)
        shutil.rmtree('w%d' % _n[0], ignore_errors=True)
    st.trace()
    if got[0] == 'ok':
        have = ('ok', snap(got[1]))
    else:
        have = got[:2]
    st.outcome(have)
    if have != want:
        raise Violation('document with includes differs\n files %s\n want %s\n got  %s %s' % (files, want, have, got[2:]))
    if got[0] == 'ok':
        consistent(got[1], declared=any(r[0] == 'Declare' for rows in files.values() for r in rows))
        for t in got[1].all_terms:
            if t.row and t.file_name and ('%s %s' % (t.file_name, t.row)) not in t.file_ref():
                raise Violation('file reference of %r is %r' % (t, t.file_ref()))
    elif culprit and culprit != 'include' and culprit not in got[2]:
        raise Violation('the error does not name the file %s: %s' % (culprit, got[2]))
    if errors and (errors[0] != 'ok' or errors[1] != [at]):
        raise Violation('the parser lists the errors %s, want %s\n files %s' % (errors[1:], [at], files))
