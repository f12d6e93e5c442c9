"""C05: a Lines text has exactly the rows that its grammar defines.

All texts up to a length over an alphabet of the grammar's characters are split by the implementation and by a
reference implementation of the grammar; all sequences of lines up to a depth are parsed as text, through each way of
giving the text (string, open file, path, path object), and must give the document that the table of rows gives.
"""
import io
import os
import pathlib

from mc import gen, spec
from mc.common import Violation
from mc.impl import rows_doc, text_doc, attempt
from mc.snap import snap
from metatab.rowgen import TextRowGenerator

LEVEL = 'model_checking'

CHARS = ['a', ':', '|', '\\', '#', '====', ' ', '.', '\n', '=']
CHARS2 = ['A', ': ', '|', '\\|', '\n', '\r\n', '\t', 'é', '"', ',', '#', 'Section:']

LINES = [
    'Title: T',
    'A: 1|x|y',
    'Section: S|p|q',
    '==== S|p|q',
    '    .B: 2',
    '# c: omment',
    '',
    'A.B: http://x.y:80/z',
    '   # x',
    '========  U',
    'A: a\\|b|c\\|d',
    'Header: v|h|i',
    'A',
    ': orphan',
    'A:',
    'A: # not a comment',
    '\tA:  7  |  8',
    ' ==== V',
    'Root.C: a | b',
]


def bounds(tier):
    return (7, 6, 3, 4) if tier == 'thorough' else (6, 5, 2, 3)


def BOUNDS(tier):
    n, n2, d, d2 = bounds(tier)
    return dict(characters=CHARS, text_length=n, second_alphabet=CHARS2, second_length=n2, lines=len(LINES),
                line_depth_all_routes=d, line_depth_string=d2)


def cases(tier):
    n, n2, d, d2 = bounds(tier)
    for seq in gen.sequences(range(len(LINES)), d):
        yield {'lines': seq, 'routes': True}
    for seq in gen.sequences(range(len(LINES)), d2, d + 1):
        yield {'lines': seq, 'routes': False}
    # One case is the set of all texts with the same first symbols
    for k, alpha, length in ((0, CHARS, n), (1, CHARS2, n2)):
        for m in range(0, length + 1):
            split = max(0, m - 3)
            for prefix in gen.sequences(range(len(alpha)), split, split):
                yield {'alphabet': k, 'prefix': prefix, 'more': m - split}


def grammar(text):
    """The rows of a Lines text"""
    rows = []
    for line in lines(text):
        if line.strip().startswith('#'):
            continue
        if line.startswith('===='):
            line = 'Section:' + line.lstrip('=')
        if ':' not in line:
            rows.append([line.strip()])
            continue
        i = line.index(':')
        term, rest = line[:i].strip(), line[i + 1:].strip()
        cells = ['']
        for j, c in enumerate(rest):
            if c == '|' and j and rest[j - 1] == '\\':
                cells[-1] = cells[-1][:-1] + '|'
            elif c == '|':
                cells.append('')
            else:
                cells[-1] += c
        rows.append([term] + [c.strip() for c in cells])
    return rows


def lines(text):
    out = ['']
    prev = ''
    for c in text:
        if c == '\n' and prev == '\r':
            pass
        elif c in '\n\r':
            out.append('')
        else:
            out[-1] += c
        prev = c
    if out[-1] == '':
        out.pop()
    return out


def strip(rows):
    return [[c.strip() for c in r] for r in rows]


def run(case, st):
    if 'lines' in case:
        return documents(case, st)

    alpha = (CHARS, CHARS2)[case['alphabet']]
    for seq in gen.sequences(alpha, case['more'], case['more']):
        text = ''.join(alpha[i] for i in case['prefix']) + ''.join(seq)
        want = grammar(text)
        got = attempt(lambda: strip(TextRowGenerator(text)))
        st.trace()
        st.step(len(text))
        if len(text) <= 4 or case['alphabet']:
            st.state(tuple(map(tuple, want)))
        if got[0] != 'ok' or got[1] != want:
            raise Violation('rows of %r\n want %s\n got  %s' % (text, want, got[1:]))


def nofile(c):
    def term(t):
        return t[:7] + (tuple(term(x) for x in t[8]),)

    return tuple((n, cols, tuple(term(t) for t in ts)) for n, cols, ts in c)


def obs(a):
    return ('ok', nofile(snap(a[1]))) if a[0] == 'ok' else a[:2]


def documents(case, st):
    for nl in ('\n', '\r\n'):
        text = nl.join(LINES[i] for i in case['lines'])
        rows = grammar(text)
        want = obs(attempt(rows_doc, rows))
        st.state(want)
        st.step(len(rows))
        routes = {'string': lambda: text}
        if case['routes']:
            with open('t.txt', 'w', newline='', encoding='utf8') as f:
                f.write(text)
            routes['stringio'] = lambda: io.StringIO(text)
            routes['file'] = lambda: open('t.txt')
            routes['path'] = lambda: os.path.abspath('t.txt')
            routes['pathlib'] = lambda: pathlib.Path('t.txt')
        for name, make in routes.items():
            got = obs(attempt(text_doc, make()))
            st.trace()
            st.outcome(got)
            if got != want:
                raise Violation('%r from %s\n want %s\n got  %s' % (text, name, want, got))
            got = attempt(lambda: strip(TextRowGenerator(make())))
            if got[0] != 'ok' or got[1] != rows:
                raise Violation('rows of %r from %s\n want %s\n got  %s' % (text, name, rows, got[1:]))
        # a generator of text can be iterated again
        g = TextRowGenerator(text)
        if strip(g) != strip(g):
            raise Violation('rows of %r differ when they are read again' % text)
