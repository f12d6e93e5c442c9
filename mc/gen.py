"""Bounded spaces of documents. Everything here enumerates; nothing is drawn at random."""
import csv
import os
from itertools import product, combinations

# Cell texts that separators, quoting, stripping and truth tests may mistake
VALUES = ['x', '', '0', 'False', 'None', 'a b', '  pad  ', 'a,b', '"q"', "it's", 'a:b', ':', 'a|b', '|', '\\|', 'a\\', '#h',
          'a#b', '====', 'a.b', '.', 'root.x', 'Root', 'é', '日本', 'a\tb', 'http://x.y/z?a=b|c#d', '1.0', '-1', 'A' * 60,
          'Section', '@value', 'a=b', 'x\u00a0y', '${v}', '%s', '{}']
# More of them, for fewer places
MORE_VALUES = ['a  b', '\\', '||', 'a|b|c|', '\\\\|', 'a\\|b\\|', "''", '=1+1', 'nan', 'null', 'true', '-', '--', '*', '?', '<b>&amp;', 'C:\\x', ';',
               'a;b', '[1]', '(x)', '1e3', '00', '0.0', '2001-01-01', '$', '~', '`x`', '_', 'header', 'root', 'value', 'Include', 'W' * 300, 'w ' * 200 + 'w',
               'a\u200bb', '\ufeffx', 'e\u0301', 'ß', 'İ', '\U0001f600', 'a\x0bb', ':a', 'a:', '::', '===', '=====', '= =', '#', '##', '.a', 'a.',
               '..', '"', '""', 'a"b', '",', ',', ',,', "'"]
LINEBREAK_VALUES = ['a\nb', 'a\r\nb', '\na', 'a\n\nb,"c"']


def sequences(alphabet, depth, start=0):
    """All sequences of alphabet items of length start..depth, shortest first"""
    for n in range(start, depth + 1):
        for seq in product(range(len(alphabet)), repeat=n):
            yield [alphabet[i] for i in seq]


BASE = [
    ['Title', 'T1'],
    ['Origin', 'o', 'p0'],
    ['Section', 'Contacts', 'Email', 'Url'],
    ['Creator', 'bob', 'b@x', 'u'],
    ['Creator.Org', 'acme', 'o@x'],
    ['.Tel', '555'],
    ['Wrangler', 'ann', '', 'w'],
    ['Section', 'Schema', 'DataType', 'Note'],
    ['Table', 't1'],
    ['Table.Column', 'c1', 'int', 'n1'],
    ['Table.Column', 'c2', 'str'],
    ['Column.Unit', 'm'],
    ['Table', 't2', 'dt'],
    ['Table.Column', 'c3', '', 'n3'],
]

BASE2 = [
    ['Header', 'Label', 'Code', 'Lang'],
    ['Name', 'n', 'c', 'l'],
    ['Name.Alt', 'm'],
    ['Section', 'Res', 'Name', '', 'Title'],
    ['Datafile', 'u1', 'd1', 'pos', 'tt'],
    ['.Note', 'nn', 'x1'],
    ['Datafile.Note', 'n2'],
    ['Section', 'Docs'],
    ['Note', 'first', 'extra'],
    ['Header', 'Text', 'Author'],
    ['Note', 'second', 'me'],
    ['Section', 'Res'],
    ['Datafile', 'u2', 'd2'],
    ['Section', 'Root'],
    ['Keyword', 'k1'],
    ['Keyword', 'k2', 'kc'],
]

# More of everything: columns, terms of one name, levels, sections and kinds of names
LARGE = [
    ['Title', 'T1'],
    ['Sub-Title', 'T2', 'pos', '', 'pos3'],
    ['Section', 'Wide', 'One', 'two_2', 'Data Type', 'x-y', 'Größe', 'N6', 'n7', 'n8', 'n9', 'n10', 'n11', 'n12'],
    ['W', 'w1', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n'],
    ['W', 'w2', '', 'b', '', '', '', '', '', '', '', '', '', 'l'],
    ['W', '', '', '', '', '', '', '', '', '', '', '', '', '', 'm', '', 'o'],
    ['W.x-y', 'v', '', '', 'c'],
    ['.n10', 'second'],
    ['.n10', 'third', 'o'],
    ['Section', 'Deep', 'P', 'Q'],
    ['L1', '1', 'p1', 'q1'],
    ['L1.L2', '2', 'p2'],
    ['L2.L3', '3', '', 'q3'],
    ['L3.L4', '4', 'p4', 'q4'],
    ['L4.L5', '5'],
    ['.L6', '6', 'p6'],
    ['L4.L5', '5b', '', 'q5'],
    ['L2.L3', '3b'],
    ['L3.L4', '4b', 'p'],
    ['L1.L2', '2b'],
    ['L1.P', 'again'],
    ['Section', 'Many', 'Name', 'Title'],
] + [row for i in range(12) for row in [['Item' if i % 3 else 'Other', 'v%d' % (i % 5), 'n%d' % i] + ['t'] * (i % 2)] + [
    ['.Sub', 's%d' % i]] * (i % 4 == 1) + [['Item.Note2', 'x', '', 'y']] * (i == 8)] + [
    ['Section', 'Empty', 'U'],
    ['Section', 'Last_1'],
    ['Z', '26', 'z0', '', 'z2'],
    ['Section', 'Wide'],
    ['W', 'w4', '', '', '', '', '', '', '', '', '', '', 'k'],
    ['Section', 'Root'],
    ['Keyword', 'k1'],
    ['.Note', 'n'],
]

# Names that contain, begin with or end in a name with a meaning of its own, and such names where they have no meaning
WORDS = [
    ['Beetroot', 'root.x'],
    ['Beetroot.Rootstock', '1'],
    ['.Subsection', 'header'],
    ['Sections', 'Root', 'section'],
    ['Includes', 'nofile.csv'],
    ['Declared', 'value'],
    ['Beetroot.Section', 'own'],
    ['Section', 'Rooted', 'Rootname', 'Values', 'Section', 'Names'],
    ['Headers', 'h', 'root', '@value', 'Section', 'name'],
    ['.Header', 'none'],
    ['Headers.Include', 'x.csv', 'r2'],
    ['Root.Value', 'v', '', 'vv'],
    ['DeclareTerm', 'Headers', 'Rooted'],
    ['.Description', 'd'],
    ['Section', 'Header', 'Url', 'Schema', 'Description'],
    ['Root.Headers', 'u', 'http://x', 's', ''],
    ['Table', 'section', '', 'sch'],
    ['Table.Name', 'n'],
    ['.Term', 't', 'u2'],
    ['Section', 'Declare'],
    ['Terms', 'root.terms', 'x'],
    ['Section', 'Sub root', 'Root Name'],
    ['Args', 'a', 'b'],
    ['Args.Children', 'c', '', 'd'],
    ['Children.Parent', 'p', 'q'],
]


def copy(rows):
    return [list(r) for r in rows]


def cell_sites(rows, min_col=0):
    return [(r, c) for r in range(len(rows)) for c in range(min_col, len(rows[r]) + 1)]


def substituted(rows, subs):
    """`subs` is a list of (row, col, text); a col one past the end adds a cell"""
    rows = copy(rows)
    for r, c, v in subs:
        while len(rows[r]) <= c:
            rows[r].append('')
        rows[r][c] = v
    return rows


def row_edits(rows):
    """All documents with one row deleted, duplicated elsewhere, or moved"""
    n = len(rows)
    for i in range(n):
        yield rows[:i] + rows[i + 1:]
    for i in range(n):
        for j in range(n + 1):
            yield rows[:j] + [rows[i]] + rows[j:]
    for i in range(n):
        rest = rows[:i] + rows[i + 1:]
        for j in range(len(rest) + 1):
            if j != i:
                yield rest[:j] + [rows[i]] + rest[j:]


def real_documents():
    """Copies of documents that come with metatab, which use the declarations that are published with it: name -> rows"""
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data')
    out = {}
    for n in sorted(os.listdir(d)):
        with open(os.path.join(d, n), newline='', encoding='utf8') as f:
            out[n[:-4]] = [r for r in csv.reader(f)]
    return out


def near_edits(rows):
    """All documents with one row deleted, duplicated, or exchanged with the next"""
    for i in range(len(rows)):
        yield rows[:i] + rows[i + 1:]
        yield rows[:i + 1] + rows[i:]
        if i:
            yield rows[:i - 1] + [rows[i], rows[i - 1]] + rows[i + 1:]
