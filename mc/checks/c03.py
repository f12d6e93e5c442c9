"""C03: CSV output parses back to the same document.

Every row sequence up to a depth, every row edit and cell substitution of four larger documents, and every history of
edits up to a depth is written as CSV and read back; the result must have the same sections, columns, terms, values,
children and dictionary form, and writing it again must give the same text.
"""
from mc import roundtrip
from mc.roundtrip import BOUNDS, cases, setup  # noqa

LEVEL = 'model_checking'


def run(case, st):
    d = roundtrip.build(case, st)
    if d is not None:
        roundtrip.check(d, st, 'csv')
