"""The reference model: what a table of Metatab rows means, in the plainest way.

It shares no code with metatab. A document is an ordered dict of sections, a section an ordered list of terms, a
term has a name, a value and an ordered list of children.
"""
import posixpath


class SpecError(Exception):
    def __init__(self, kind, what=''):
        super().__init__(kind + ' ' + what)
        self.kind = kind
        self.at = None


class T(object):
    __slots__ = 'name value children row col file vname ptype parent sec'.split()

    def __init__(self, name, value, row=None, col=None, file=None, vname='@value', ptype='any', parent=None):
        self.name, self.value = name, value
        self.children = []
        self.row, self.col, self.file = row, col, file
        self.vname, self.ptype = vname, ptype
        self.parent = parent
        self.sec = None


class S(object):
    def __init__(self, name, cols):
        self.name = name
        self.cols = cols
        self.vname = '@value'
        self.terms = []


class Doc(object):
    def __init__(self):
        self.sections = {'root': S('Root', [])}
        self.decl_terms = {
            'root.section': {'termvaluename': 'name'},
            'root.synonym': {'termvaluename': 'term', 'childpropertytype': 'sequence'},
            'root.declareterm': {'termvaluename': 'term', 'childpropertytype': 'sequence'},
            'root.declaresection': {'termvaluename': 'section', 'childpropertytype': 'sequence'},
            'root.declarevalueset': {'termvaluename': 'name', 'childpropertytype': 'sequence'},
            'declarevalueset.value': {'termvaluename': 'value', 'childpropertytype': 'sequence'},
        }
        self.decl_sections = {k: {'args': [], 'terms': []} for k in ('root', 'declaredterms', 'declaredsections')}
        self.steps = 0


def clean(v):
    """A cell: text without surrounding whitespace, or None if blank"""
    if v is None:
        return None
    v = str(v).strip()
    return v or None


def split(name):
    """('foo', None) for Foo, ('foo', '') for .Foo, ('foo', 'bar') for Bar.Foo"""
    name = name.strip().lower()
    if '.' not in name:
        return name, None
    p, n = name.split('.')
    return n.strip(), p.strip()


def trim(cols):
    cols = list(cols)
    while cols and not cols[-1]:
        cols.pop()
    return [c or '' for c in cols]


class Parser(object):
    """`files` maps normalized paths to rows; `path` is the path of the document or None if it has none"""

    def __init__(self, doc=None, files=None, on_state=None, declared_cols=False):
        self.doc = doc or Doc()
        self.files = files or {}
        self.on_state = on_state
        self.hidden = {}  # sections of declaration documents
        self.declared_cols = dict(self.doc.decl_sections)

    def parse(self, rows, path=None, file=None):
        self.section = self.doc.sections['root']
        self.by_name = {}
        self.parent = None
        self.rows(rows, path, file, (path,) if path else (), None)
        return self.doc

    def declared(self, parent, name):
        return self.doc.decl_terms.get('%s.%s' % (parent, name), {})

    def rows(self, rows, path, file, stack, mode):
        last_section = self.section

        for n, row in enumerate(rows, 1):
            if not row or not clean(row[0]) or clean(row[0]).startswith('#'):
                continue

            self.doc.steps += 1
            name, pname = split(row[0])
            value = clean(row[1]) if len(row) > 1 else None
            cells = [clean(e) for e in row[2:]]

            if pname in (None, 'root') and name in ('include', 'declare'):
                try:
                    if value is None:
                        raise SpecError('include')
                    self.term(name, None, value, [], n, file, mode)
                    self.include(name, value, path, stack, mode)
                except SpecError as e:
                    if e.at is None:
                        e.at = (file, n, 'root.' + name)  # The innermost row
                    raise
                self.open(last_section)

            elif pname in (None, 'root') and name == 'section':
                if value is None:
                    raise SpecError('parser')
                last_section = self.section_row(value, cells, mode)
                self.open(last_section)

            elif pname in (None, 'root') and name == 'header':
                self.section.cols = trim(cells)
                self.section.vname = (value or '@value').lower()

            else:
                self.term(name, pname, value, cells, n, file, mode)

            if self.on_state:
                self.on_state(self)

    def open(self, s):
        self.section = s
        self.parent = None

    def section_row(self, name, cells, mode):
        key = name.lower()
        if key in self.doc.sections and mode != 'declare':
            s = self.doc.sections[key]
            if any(cells):
                s.cols = trim(cells)
                s.vname = '@value'
            return s

        s = S(name, trim(cells))
        if not s.cols and key in self.declared_cols:
            s.cols = list(self.declared_cols[key]['args'])
        if mode != 'declare':
            self.doc.sections[key] = s
        return s

    def term(self, name, pname, value, cells, n, file, mode):

        # Synonyms
        q = '%s.%s' % ('root' if pname is None else pname or '<elided>', name)
        for k, d in self.doc.decl_terms.items():
            if k == q and d.get('synonym'):
                name, pname = split(d['synonym'])

        t = T(name, value, n, 1, file)

        if pname == '':
            t.parent = self.parent
        elif pname in (None, 'root'):
            t.parent = None
        else:
            t.parent = self.by_name.get(pname)
            if t.parent is None:
                raise SpecError('parser', 'no parent %s' % pname)

        (self.section.terms if t.parent is None else t.parent.children).append(t)
        self.annotate(t)

        if pname != '':
            self.parent = t
            self.by_name[name] = t

        for i, cell in enumerate(cells):
            if cell is not None:
                cname = self.section.cols[i].lower() if i < len(self.section.cols) and self.section.cols[i] else str(i)
                c = T(cname, cell, n, i + 2, file, parent=t)
                t.children.append(c)
                self.annotate(c)

        if mode == 'declare':
            self.declare(t, cells)

        return t

    def annotate(self, t):
        d = self.declared(t.parent.name if t.parent else 'root', t.name)
        t.vname = d.get('termvaluename', self.section.vname).lower()
        t.ptype = d.get('childpropertytype', 'any')
        t.sec = self.section.name

    def include(self, kind, name, path, stack, mode):
        if kind == 'include' and path is None:
            raise SpecError('include')
        if name.startswith(('http:', 'https:')):
            full = name.strip('/')
        else:
            full = posixpath.normpath(posixpath.join(posixpath.dirname(path or ''), name.strip('/')))
        if kind == 'declare' and full not in self.files and full + '.csv' in self.files:
            full = full + '.csv'
        if full in stack or full not in self.files:
            raise SpecError('include', full)
        # The rows of an included document are in the section of the Include row until they open another.
        # Declarations are in no section of the document.
        if kind == 'declare' or mode == 'declare':
            mode = 'declare'
            self.open(S('Declare', []))
        self.rows(self.files[full], full, posixpath.basename(full).lower(), stack + (full,), mode)

    # Declarations

    def declare(self, t, cells):
        if t.parent is not None or t.value is None:
            return

        if t.name == 'declaresection':
            self.doc.decl_sections[t.value.lower()] = {'args': [c for c in cells if c], 'terms': []}

        elif t.name == 'declareterm':
            d = {}
            for i, c in enumerate(self.section.cols):
                if c and i < len(cells) and cells[i]:
                    d[c.lower()] = cells[i]
            d['term'] = t.value
            self.declare_term(t.value, d)
            if d.get('inheritsfrom'):
                if not d.get('section'):
                    raise SpecError('declaration')
                tn, _ = split(t.value)
                base, _ = split(d['inheritsfrom'])
                for other in list(self.doc.decl_sections[d['section'].lower()]['terms']):
                    on, op = split(other)
                    if op == base:
                        od = dict(self.doc.decl_terms['%s.%s' % (op, on)])
                        od.pop('inheritsfrom', None)
                        od['term'] = '%s.%s' % (split_case(t.value), split_case(other))
                        self.declare_term(od['term'], od)

    def declare_term(self, value, d):
        n, p = split(value)
        self.doc.decl_terms['%s.%s' % ('root' if p is None else p, n)] = d
        if d.get('section'):
            s = self.doc.decl_sections.get(d['section'].lower())
            if s is None:
                raise SpecError('declaration')
            if value not in s['terms']:
                s['terms'].append(value)


def split_case(name):
    return name.strip().split('.')[-1].strip()


def parse(rows, path=None, file=None, files=None, on_state=None, doc=None):
    return Parser(doc, files, on_state).parse(rows, path, file)


# Canonical forms. A blank value is None, trailing blank column names do not count.

def canon_term(t, prov=True, types=True):
    d = [t.name, t.value]
    if types:
        d += [t.vname, t.ptype]
    if prov:
        d += [t.row, t.col, t.sec, t.file]
    return tuple(d) + (tuple(canon_term(c, prov, types) for c in t.children),)


def canon(doc, prov=True, types=True, cols=True):
    return tuple((s.name, tuple(s.cols) if cols else None, tuple(canon_term(t, prov, types) for t in s.terms))
                 for s in doc.sections.values())


# Dictionary form

def to_dict(t, names=True):
    """Dictionary form of a term, as nested (key, value) pairs in order for mappings"""
    if not t.children:
        return t.value
    return mapping(t.children, names, t)


def mapping(children, names=True, owner=None):
    d = {}
    for c in children:
        v = to_dict(c, names)
        if c.ptype == 'scalar':
            d[c.name] = v
        elif c.ptype == 'sequence':
            if isinstance(d.get(c.name), L):
                d[c.name].append(v)
            else:
                d[c.name] = L([v])
        elif c.ptype == 'sconcat':
            d[c.name] = d[c.name] + ' ' + (c.value or '') if c.name in d else (c.value or '')
        elif c.ptype == 'bconcat':
            d[c.name] = d.get(c.name, '') + (c.value or '')
        elif c.name not in d:
            d[c.name] = v
        elif isinstance(d[c.name], L):
            d[c.name].append(v)
        else:
            d[c.name] = L([d[c.name], v])
    if owner is not None and owner.value:
        d[owner.vname if names else '@value'] = owner.value
    return d


class L(list):
    pass


def doc_dict(doc, names=True):
    return mapping([t for s in doc.sections.values() for t in s.terms], names)
