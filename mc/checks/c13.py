"""C13: files and command line output hold the document, and nothing else is touched.

A scratch directory with a set of files is the state. Every document of a bounded set, with every way of writing (three
functions, paths of all kinds, existing, missing, wrong and remote targets) and every option of the command line; and all
histories up to a depth of edits, writes, reloads and command lines in one directory. After every step the whole directory is
compared with a model that maps paths to contents; written files are read back and compared with the document.
"""
import ast
import csv
import io
import itertools
import json
import os
import re
import shutil
import sys
from collections import OrderedDict
from pathlib import Path

from mc import gen, spec
from mc.common import Violation
from mc.impl import MetatabDoc, attempt, csv_rows, rows_doc
from mc.snap import plain, snap, key_order

LEVEL = 'model_checking'

ROWSET = [
    ['Title', 'A title: with | "x", é'],
    ['Name', 'old'],
    ['Name', ''],
    ['Identifier', 'id1'],
    ['Dataset', 'D'],
    ['Version', '1'],
    ['Section', 'S', 'p', 'q'],
    ['A', '0', 'False', '#x'],
    ['A', '', 'b|c'],
    ['A.B', 'null'],
    ['.C', '\\|'],
    ['Section', 'Root', 'r'],
]

BAD = [[['X.Y', '1']], [['Title', 'T'], ['Include', 'nosuch.csv']], [['Section', '']]]

OTHERS = {'m.txt': b'Title: other\n', 'm.json': b'{}', 'm.yaml': b'x: 1\n', 'other.csv': b'Title,Other\n', 'sub/k.csv': b'k\n',
          'metadata.csv': b'Title,Meta\n'}

# (function, path or None, kind of path)
WRITES = [(f, p, k) for f in ('write_csv', 'write_lines', 'write')
          for p, k in ((None, 'str'), ('new.csv', 'str'), ('new.txt', 'str'), ('other.csv', 'path'), ('m.txt', 'path'),
                       ('new.csv', 'abs'), ('new.txt', 'url'), ('sub/k.csv', 'str'), ('nodir/k.csv', 'str'), ('nodir/k.txt', 'path'),
                       ('new.v1.csv', 'path'), ('n w.txt', 'str'), ('sub/x.y.csv', 'path'), ('sub/new.txt', 'abs'), ('new.csv.json', 'str'),
                       ('NEW.CSV', 'str'), ('new.json', 'str'), ('new', 'str'), ('sub', 'str'), ('http://localhost:1/x.csv', 'str'),
                       ('http://localhost:1/x.txt', 'str'), ('m.json', 'path'), ('new.lines', 'str'), ('m.tsv', 'path'))]

CLI = [[], ['-c'], ['-j'], ['-y'], ['-l'], ['-p'], ['-t'], ['-f', 'Title'], ['-f', 'root.title'], ['-f', 'Nosuch'],
       ['-W'], ['-W', '-c'], ['-W', '-j'], ['-W', '-y'], ['-W', '-l'], ['-W', '-p'], ['-d', '-j'], ['-d', '-y'], ['-j', '-y'],
       ['--nosuch']]


def docs(tier):
    yield gen.BASE
    yield gen.BASE2
    yield gen.WORDS
    for seq in gen.sequences(ROWSET, 3 if tier == 'thorough' else 2):
        yield seq


STEPS = [
    ['write_csv', None], ['write_lines', 'm.txt'], ['write', 'm.csv'], ['write', 'm.txt'], ['write_csv', 'm.json'],
    ['edit', 'Title', 'new'], ['edit', 'Name', None], ['add'], ['reload', 'm.csv'], ['reload', 'm.txt'],
    ['cli', ['-W', '-l', 'm.csv']], ['cli', ['-W', '-c', 'm.txt']], ['cli', ['-j', 'm.csv']], ['cli', ['-C', 'metatab', 'm.csv']],
    ['surrogate', 'm.csv'], ['surrogate', 'm.txt'],
]


# Arguments for the file, and the path of the file
INPUTS = [('m.v1.csv', 'm.v1.csv'), ('My Doc.csv', 'My Doc.csv'), ('sub/k.v2.csv', 'sub/k.v2.csv'), ('./sub/../m.csv', 'm.csv'), ('ABS/sub/k.csv', 'sub/k.csv'),
          ('file:ABS/m.v1.csv', 'm.v1.csv'), ('sub', 'sub/metadata.csv'), ('.', 'metadata.csv'), (None, 'metadata.csv'), ('m.txt', 'm.txt'),
          ('http:', 'm.csv'), ('http:sub/', 'sub/k.v2.csv'), ('http:', 'm.txt'), ('sub/a.b.txt', 'sub/a.b.txt'), ('\u00fc.csv', '\u00fc.csv'), ('metadata.csv', 'metadata.csv')]


def bounds(tier):
    return 4 if tier == 'thorough' else 3


def BOUNDS(tier):
    return dict(rows=len(ROWSET), rows_per_document=3 if tier == 'thorough' else 2, ways_of_writing=len(WRITES),
                command_lines=len(CLI), histories=bounds(tier), steps=len(STEPS))


def cases(tier):
    for rows in docs(tier):
        yield {'k': 'write', 'rows': rows}
        yield {'k': 'cli', 'rows': rows}
    for rows in (gen.BASE, gen.BASE2, gen.WORDS):
        for arg, path in INPUTS:
            yield {'k': 'cli', 'rows': rows, 'arg': arg, 'path': path}
    for rows in BAD:
        yield {'k': 'bad', 'rows': rows}
    yield {'k': 'create'}
    for n in range(1, bounds(tier) + 1):
        for h in itertools.product(range(len(STEPS)), repeat=n):
            yield {'k': 'history', 'h': [STEPS[i] for i in h]}


# The scratch directory

def scratch():
    return os.path.join(os.environ['MC_SCRATCH'], 'd%d' % os.getpid())


def fresh(files):
    d = scratch()
    os.chdir(os.environ['MC_SCRATCH'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/sub')
    os.chdir(d)
    for n, c in files.items():
        with open(n, 'wb') as f:
            f.write(c)


def listing():
    out = {}
    for p, ds, fs in os.walk('.'):
        for f in fs:
            fn = os.path.normpath(os.path.join(p, f))
            out[fn] = open(fn, 'rb').read()
        for x in ds:
            out[os.path.normpath(os.path.join(p, x)) + '/'] = b''
    return out


def same_files(want, what):
    got = listing()
    if got != want:
        bad = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
        raise Violation('%s: files changed or missing: %s' % (
            what, [(k, 'want %r' % want.get(k, '<none>')[:200], 'got %r' % got.get(k, '<none>')[:200]) for k in bad]),
            key='files')


def to_csv(rows):
    s = io.StringIO(newline='')
    csv.writer(s).writerows(rows)
    return s.getvalue().encode('utf8')


def cli(args):
    """Runs the command; (exit status, stdout)"""
    import metatab.cli as m
    import logging
    old = sys.argv, sys.stdout, sys.stderr, sys.stdin
    sys.argv = ['metatab'] + args
    sys.stdout, sys.stderr, sys.stdin = io.StringIO(), io.StringIO(), io.StringIO()
    loggers = [logging.getLogger(n) for n in ('user', 'cli-errors')]
    try:
        try:
            m.metatab()
            rc = 0
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        except Exception:
            rc = 1
        out = sys.stdout.getvalue()
    finally:
        sys.argv, sys.stdout, sys.stderr, sys.stdin = old
        for lg in loggers:
            for h in list(lg.handlers):
                lg.removeHandler(h)
    return rc, out


def tree(d):
    return snap(d, prov=False)


def run(case, st):
    if case['k'] in ('write', 'cli') and attempt(rows_doc, case['rows'])[0] != 'ok':
        st.add('not_parsed')
        return
    try:
        globals()['run_' + case['k']](case, st)
    finally:
        os.chdir(os.environ['MC_SCRATCH'])


EXT = {'write_csv': ('.csv',), 'write_lines': ('.txt',), 'write': ('.csv', '.txt')}


def run_write(case, st):
    rows = case['rows']
    files = dict(OTHERS, **{'m.csv': to_csv(rows), 'orig.csv': to_csv(rows)})
    for fn, path, kind in WRITES:
        for source in ('file', 'rows') if path is None or path == 'new.csv' else ('file',):
            fresh(files)
            before = listing()
            d = MetatabDoc('m.csv') if source == 'file' else rows_doc(rows)
            arg = path
            if kind == 'path':
                arg = Path(path)
            elif kind == 'abs':
                arg = os.path.abspath(path)
            elif kind == 'url':
                arg = 'file:' + os.path.abspath(path)
            r = attempt(getattr(d, fn), arg) if path is not None else attempt(getattr(d, fn))
            st.step()
            st.trace()
            what = '%s(%r) of a document from %s' % (fn, arg, source)
            target = path or ('m.csv' if source == 'file' else 'metadata.csv')
            ext = os.path.splitext(target)[1]
            st.state((fn, path, kind, source))
            if ext not in EXT[fn] or 'nodir' in target or target == 'sub' or target.startswith('http'):
                if r[0] == 'ok':
                    raise Violation('%s did not fail' % what)
                same_files(before, what)
                continue
            if r[0] != 'ok':
                raise Violation('%s failed: %s' % (what, r[2]))
            content = (d.as_csv() if ext == '.csv' else d.as_lines()).encode('utf8')
            same_files(dict(before, **{target: content}), what)
            # Writing adds the identifier, if there was none, and the name
            e = MetatabDoc('orig.csv') if source == 'file' else rows_doc(rows)
            e['Root'].get_or_new_term('Identifier')
            if not e['Root']['Identifier'].value:
                e['Root']['Identifier'].value = d.find_first_value('Identifier', section='Root')
            e.update_name()
            added = (e.as_csv() if ext == '.csv' else e.as_lines()).encode('utf8')
            if content != added:
                raise Violation('%s gives %r, the document with identifier and name is %r' % (what, content, added))
            st.outcome(content if b'-' not in content else re.sub(rb'[0-9a-f]{8}-[-0-9a-f]{27}', b'', content))
            # It has an identifier
            if not d.find_first_value('Identifier', section='Root'):
                raise Violation('%s: no identifier' % what)
            back = attempt(load, target)
            if back[0] != 'ok':
                raise Violation('%s can not be read back: %s' % (what, back[2]))
            readback(d, back[1], what)


def load(path):
    """A text file is a Metatab file only as a metatab reference"""
    if path.endswith('.txt'):
        from metatab import parse_app_url
        return MetatabDoc(parse_app_url(path, proto='metatab'))
    return MetatabDoc(path)


def readback(d, b, what):
    if same(d, b) is False:
        raise Violation('%s reads back as another document\n written %r\n read    %r' % (what, tree(d), tree(b)), key='read back')


def same(d, b):
    from mc import roundtrip
    return roundtrip.equal(d, b)


_n = [0]


def publish(path, content):
    """The URL of a file with the content on a server on the loopback interface. Each is new, because they are cached"""
    from mc.checks.c19 import server
    here = os.getcwd()
    os.chdir(os.environ['MC_SCRATCH'])
    try:
        url = server()
        _n[0] += 1
        p = 'web%d-%d/%s' % (os.getpid(), _n[0], path)
        os.makedirs(os.path.dirname(p))
        with open(p, 'wb') as f:
            f.write(content)
        return url + p
    finally:
        os.chdir(here)


def run_cli(case, st):
    rows = case['rows']
    path = case.get('path', 'm.csv')
    arg = case.get('arg', 'm.csv')
    content = to_csv(rows)
    if path.endswith('.txt'):
        content = rows_doc(rows).as_lines().encode('utf8')
    start = dict(OTHERS, **{path: content})
    fresh(start)
    before = listing()
    web = (arg or '').startswith('http:')
    if web:
        arg = publish(path, content)
    arg = [] if arg is None else [arg.replace('ABS', os.getcwd())]
    base = os.path.splitext(path)[0] + '.'
    d = load(path)
    dic = plain(d.as_dict())
    for args in CLI:
        if '-d' in args and (path.endswith('.txt') or web):
            continue
        rc, out = cli(args + arg)
        st.step()
        st.trace()
        st.state((args, case.get('arg')))
        st.outcome((args, out))
        what = 'metatab %s' % ' '.join(args + arg)
        if '--nosuch' in args or args == ['-j', '-y']:
            if rc == 0:
                raise Violation('%s did not fail' % what)
            same_files(before, what)
            continue
        if web and '-W' in args and '-p' not in args:  # There is no place next to the input
            if rc == 0 or out:
                raise Violation('%s did not fail' % what)
            same_files(before, what)
            continue
        if args == ['-f', 'Nosuch'] or (args[:1] == ['-f'] and d.find_first('Title') is None):
            if rc == 0:
                raise Violation('%s did not fail' % what)
            same_files(before, what)
            continue
        if rc != 0:
            raise Violation('%s failed with status %s' % (what, rc))

        opts = [a for a in args if a != '-W']
        fmt = opts[-1] if opts else '-c'
        if args[:1] == ['-f']:
            if out != '%s\n' % d.find_first_value('Title'):
                raise Violation('%s printed %r' % (what, out))
            same_files(before, what)
            continue
        if '-W' in args and fmt != '-p':
            ext = {'-c': 'csv', '-j': 'json', '-y': 'yaml', '-l': 'txt'}[fmt]
            now = listing()
            text = now.get(base + ext, b'').decode('utf8')
            if out:
                raise Violation('%s printed %r' % (what, out))
            if base + ext not in now:
                raise Violation('%s did not write %s' % (what, base + ext))
            same_files(dict(before, **{base + ext: now[base + ext]}), what)
            fresh(start)
        else:
            text = out[:-1]
            if out[-1:] != '\n':
                raise Violation('%s: %r' % (what, out[-20:]))
            same_files(before, what)
        formats(d, dic, fmt, text, what, '-d' in args, path)


def formats(d, dic, fmt, text, what, decl, path=None):
    if decl:
        if fmt == '-j':
            got = attempt(json.loads, text)
        else:
            import yaml
            got = attempt(yaml.safe_load, text)
        e = MetatabDoc('', decl=path)
        want = json.loads(json.dumps({'terms': e.decl_terms, 'sections': e.decl_sections}))
        if got != ('ok', want):
            raise Violation('%s printed %r' % (what, text[:500]))
        return
    if fmt == '-c':
        if text != d.as_csv():
            raise Violation('%s gave %r' % (what, text))
    elif fmt == '-l':
        if text != d.as_lines():
            raise Violation('%s gave %r' % (what, text))
    elif fmt == '-j':
        got = attempt(lambda: json.loads(text, object_pairs_hook=OrderedDict))
        if got[0] != 'ok' or plain(got[1]) != dic or key_order(got[1]) != key_order(d.as_dict()):
            raise Violation('%s gave %r' % (what, text))
    elif fmt == '-y':
        import yaml
        got = attempt(yaml.safe_load, text)
        if got[0] != 'ok' or plain(got[1]) != dic or key_order(got[1]) != key_order(d.as_dict()):
            raise Violation('%s gave %r' % (what, text))
    elif fmt == '-p':
        got = attempt(lambda: eval(text, {'OrderedDict': OrderedDict, '__builtins__': {}}))
        if got[0] != 'ok' or plain(got[1]) != dic:
            raise Violation('%s gave %r' % (what, text))
    elif fmt == '-t':
        # In the order of the rows, which is not that of the document if a section is continued
        at = 0
        for t in sorted((t for t in d.all_terms if not t.term_is('root.section')), key=lambda t: (t.row, t.col)):
            s = ':%s.%s=%s\n' % (t.parent_term, t.record_term, t.value)
            k = (text + '\n').find(s, at)
            if k < 0:
                raise Violation('%s: no line for %r, or not in order, in %r' % (what, s, text))
            at = k + len(s)


def run_bad(case, st):
    for name, content in (('m.csv', to_csv(case['rows'])), ('missing.csv', None), ('m.bin', b'\x00\xff\xfe')):
        for args in CLI:
            if args and args[0] in ('-d', '--nosuch'):
                continue
            fresh(dict(OTHERS, **({name: content} if content is not None else {})))
            before = listing()
            rc, out = cli(args + [name])
            st.step()
            st.trace()
            st.state((name, args))
            if rc == 0:
                raise Violation('metatab %s of an unreadable document did not fail' % ' '.join(args + [name]))
            same_files(before, 'metatab %s' % ' '.join(args + [name]))


def run_create(case, st):
    targets = ('new.csv', 'other.csv', 'sub/k.csv', 'metadata.csv', 'sub/new.csv', 'new.v1.csv', 'm.txt', 'm.json', 'new.txt', 'new', 'nodir/a.csv', 'sub', 'link.csv', None)
    for t, opt, target in itertools.product(('metatab', 'datapackage', 'nosuch', None), ('-C', '--create'), targets):
        if t is None and target is not None:
            continue  # The file would be the name of the template
        args = [opt, t] if t else [opt]
        fresh({k: v for k, v in OTHERS.items() if target or k != 'metadata.csv'})
        os.symlink('other.csv', 'link.csv')
        before = listing()
        rc, out = cli(args + ([target] if target else []))
        st.step()
        st.trace()
        st.state((args, target))
        what = 'metatab %s %s' % (' '.join(args), target)
        target = target or 'metadata.csv'
        exists = target in before or target + '/' in before
        if exists:
            same_files(before, what)
        elif 'nosuch' in args or not target.endswith('.csv') or 'nodir' in target:
            if rc == 0:
                raise Violation('%s did not fail' % what)
            same_files(before, what)
        else:
            now = listing()
            if rc != 0 or target not in now:
                raise Violation('%s failed' % what)
            same_files(dict(before, **{target: now[target]}), what)
            b = MetatabDoc(target)
            t = t or 'metatab'
            import metatab.templates
            o = MetatabDoc(os.path.join(os.path.dirname(metatab.templates.__file__), t + '.csv'))
            skip = ('identifier', 'name')
            w = [(s.name, [(x.record_term_lc, x.value) for x in s if x.record_term_lc not in skip]) for s in o]
            g = [(s.name, [(x.record_term_lc, x.value) for x in s if x.record_term_lc not in skip]) for s in b]
            if w != g or not b.find_first_value('Identifier'):
                raise Violation('%s is not the template\n want %r\n got  %r' % (what, w, g))


START = [['Title', 'T'], ['Name', 'n'], ['Section', 'S', 'p'], ['A', '1', 'x']]


def run_history(case, st):
    fresh({'m.csv': to_csv(START), 'other.csv': b'Title,Other\n', 'm.json': b'{}'})
    d = MetatabDoc('m.csv')
    ref = 'm.csv'
    want = listing()
    for step in case['h']:
        st.step()
        k = step[0]
        what = '%r' % (step,)
        if k in ('write_csv', 'write_lines', 'write'):
            target = step[1] or ref
            ok = os.path.splitext(target)[1] in EXT[k]
            r = attempt(getattr(d, k), step[1]) if step[1] else attempt(getattr(d, k))
            if (r[0] == 'ok') != ok:
                raise Violation('%s: %r' % (what, r))
            if ok:
                want[target] = (d.as_csv() if target.endswith('.csv') else d.as_lines()).encode('utf8')
                readback(d, load(target), what)
        elif k == 'edit':
            t = d['Root'].find_first(step[1])
            if step[2] is None:
                if t is not None:
                    d.remove_term(t)
            elif t is not None:
                t.value = step[2]
            else:
                d['Root'].new_term(step[1], step[2])
        elif k == 'add':
            d.get_or_new_section('N', ['c']).new_term('B', '2', c='é', d='z')
        elif k == 'reload':
            if os.path.exists(step[1]):
                d = load(step[1])
                ref = step[1]
        elif k == 'surrogate':
            e = rows_doc([['Title', 'a\ud800b']])
            r = attempt(e.write, step[1])
            if r[0] == 'ok':
                raise Violation('a document that can not be encoded was written')
        elif k == 'cli':
            a = step[1]
            if a[0] == '-C':
                rc, out = cli(a)
            else:
                exists = os.path.exists(a[-1])
                if exists:
                    x = load(a[-1])
                rc, out = cli(a)
                if (rc == 0) != exists:
                    raise Violation('%s: status %s' % (what, rc))
                if exists and a[0] == '-W':
                    want['m.txt' if a[1] == '-l' else 'm.csv'] = (x.as_lines() if a[1] == '-l' else x.as_csv()).encode('utf8')
                elif exists:
                    formats(x, plain(x.as_dict()), '-j', out[:-1], what, False)
        same_files(want, what)
        st.state(tuple(sorted((p, re.sub(rb'[0-9a-f]{8}-[-0-9a-f]{27}', b'', c)) for p, c in want.items())))
    st.trace()
