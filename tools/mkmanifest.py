"""Writes MANIFEST.json from properties.jsonl and the docstrings of the checks"""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in props:
    f = os.path.join(HERE, 'mc', 'checks', p['id'].lower() + '.py')
    if os.path.exists(f):
        tree = ast.parse(open(f).read())
        doc = ast.get_docstring(tree)
        consts = {n.targets[0].id: ast.literal_eval(n.value) for n in tree.body
                  if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)
                  and n.targets[0].id in ('LEVEL', 'TECHNIQUE')}
        checks.append(dict(
            property=p['id'],
            quick_cmd='bash run.sh %s quick' % p['id'],
            thorough_cmd='bash run.sh %s thorough' % p['id'],
            technique=consts.get('TECHNIQUE', 'exhaustive bounded enumeration of executions of the real code, '
                                              'each compared with an explicit reference model'),
            level=consts['LEVEL'],
            level_note=' '.join(doc.split('\n\n', 1)[-1].split())))
    else:
        na.append(dict(property=p['id'], reason='no check has been built yet'))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
