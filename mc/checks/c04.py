"""C04: Lines output parses back to the same document.

Every row sequence up to a depth, every row edit and cell substitution of four larger documents, and every history of
edits up to a depth is written as Lines and read back; the result must have the same sections, columns, terms, values,
children and dictionary form, must equal the document read back from CSV, and writing it again must give the same text.
"""
from mc import roundtrip
from mc.common import Violation
from mc.impl import attempt
from mc.roundtrip import BOUNDS, cases, setup, norm_doc, lower  # noqa
from mc.snap import snap

LEVEL = 'model_checking'


def run(case, st):
    d = roundtrip.build(case, st)
    if d is None:
        return
    e = roundtrip.check(d, st, 'lines')
    if e is not None:
        g = attempt(lambda: roundtrip.text_doc('\n'.join(s.as_lines() for s in d)))
        if g[0] != 'ok' or snap(g[1], prov=False) != snap(e, prov=False):
            raise Violation('the sections as Lines, one after the other, give another document than the Lines of the document: %s' % (g[1:],))
        f = attempt(lambda: roundtrip.read_csv(d.as_csv()))
        if f[0] != 'ok':
            raise Violation('the document can not be read back from CSV: %s' % (f[2],))
        a, b = (lower(norm_doc(snap(x, prov=False, types=False))) for x in (e, f[1]))
        if a != b:
            raise Violation('Lines and CSV give different documents\n lines %s\n csv   %s' % (a, b))
