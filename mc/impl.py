"""Running the implementation; every exception is an observation"""
import warnings

warnings.simplefilter('ignore')

from metatab import MetatabDoc
from metatab.exc import MetatabError, IncludeError, ParserError, DeclarationError
from metatab.rowgen import MetatabRowGenerator, TextRowGenerator

from mc.common import CaseTimeout

# rowgenerators loads its entry points for every URL, and pkg_resources resolves all distributions each time, which
# takes a tenth of a second. The requirements are those of the installed packages and can not change.
import pkg_resources

pkg_resources.EntryPoint.require = lambda self, *a, **kw: None


def kind(e):
    if isinstance(e, IncludeError):
        return 'include'
    if isinstance(e, DeclarationError):
        return 'declaration'
    if isinstance(e, ParserError):
        return 'parser'
    if isinstance(e, MetatabError):
        return 'metatab'
    return type(e).__name__


def attempt(fn, *args, **kwargs):
    """('ok', result) or ('error', kind, text)"""
    try:
        return ('ok', fn(*args, **kwargs))
    except CaseTimeout:
        raise
    except BaseException as e:
        return ('error', kind(e), '%s: %s' % (type(e).__name__, str(e)[:400]))


def rows_doc(rows, **kwargs):
    return MetatabDoc(MetatabRowGenerator([list(r) for r in rows]), **kwargs)


def text_doc(text, **kwargs):
    return MetatabDoc(TextRowGenerator(text), **kwargs)


def csv_rows(text):
    import csv
    from io import StringIO
    return list(csv.reader(StringIO(text, newline='')))
