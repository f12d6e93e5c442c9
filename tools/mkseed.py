"""Development tool: make and verify planted bugs. usage: python3 tools/mkseed.py SEEDS.py [ID...]

SEEDS.py defines S = {id: dict(property, needs, breaks, edits=[(file, old, new)...], demo=python source)}.
A planted bug is written to seeded/<id> only if the scratch copy builds, passes the stable tests, the demonstration
passes without and fails with the change, and the change replaces lines of the original repository.
"""
import json, os, re, shutil, subprocess, sys

BASE = '6ccfeef'
VERIF = '/verif'
PY = '/opt/venv/bin/python'
SCR = '/tmp/seedscratch'

DEMO_SH = '''#!/bin/bash
# run with cwd at the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore METATAB_CACHE="$T/c" METAPACK_CACHE="$T/c" HOME="$T" TMPDIR="$T"
mkdir -p "$T/c" "$T/w"
cd "$T/w"
timeout 120 /opt/venv/bin/python "$D/demo.py"
RC=$?
rm -rf "$T"
exit $RC
'''


def sh(cmd, cwd=None, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=dict(os.environ, **(env or {})), capture_output=True, text=True)


def make(sid, d):
    shutil.rmtree(SCR, ignore_errors=True)
    sh('cp -a /repo %s' % SCR)
    for f, old, new in d['edits']:
        p = os.path.join(SCR, f)
        s = open(p).read()
        if s.count(old) != 1:
            return 'edit matches %d times in %s: %r' % (s.count(old), f, old)
        open(p, 'w').write(s.replace(old, new))
    diff = sh('git diff', SCR).stdout
    if not diff:
        return 'no diff'
    # removed lines are lines of the original
    orig = []
    for f in sorted({e[0] for e in d['edits']}):
        blame = sh('git blame -s -l %s..HEAD -- %s' % (BASE, f), '/repo').stdout.splitlines()
        fd = sh('git diff -U0 -- %s' % f, SCR).stdout
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
            a, n = int(m.group(1)), int(m.group(2) if m.group(2) is not None else 1)
            if n == 0:
                orig.append('insertion at %d' % a)
            for i in range(a, a + n):
                orig.append(blame[i - 1].startswith('^'))
    out = os.path.join('/tmp/seedout', sid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.sh', 'w').write(DEMO_SH)
    open(out + '/demo.py', 'w').write(d['demo'].lstrip('\n'))
    json.dump(dict(property=d['property'], needs=d['needs'], what_it_breaks=d['breaks']), open(out + '/meta.json', 'w'), indent=1)
    t = sh('%s -m pytest -q -p no:cacheprovider metatab/test/test_parser.py -k "test_line_doc or test_line_doc_parts or test_new_parser or test_term_subclasses or test_url"' % PY,
           SCR, dict(PYTHONPATH=SCR, PYTHONDONTWRITEBYTECODE='1', METATAB_CACHE='/tmp/w/c', METAPACK_CACHE='/tmp/w/c'))
    passed = re.search(r'(\d+) passed', t.stdout)
    if not passed or 'failed' in t.stdout:
        return 'tests: ' + t.stdout[-600:]
    r0 = sh('bash %s/demo.sh' % out, '/repo')
    r1 = sh('bash %s/demo.sh' % out, SCR)
    if r0.returncode != 0:
        return 'demo fails on the unchanged tree: ' + r0.stdout[-500:] + r0.stderr[-1500:]
    if r1.returncode == 0:
        return 'demo passes with the change'
    if 'AssertionError' not in r1.stderr and not d.get('other'):
        return 'demo fails otherwise: ' + r1.stderr[-1500:]
    dst = os.path.join(VERIF, 'seeded', sid)
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(out, dst)
    return 'ok %s; %s' % (orig, r1.stderr.strip().splitlines()[-1][:150])


ns = {}
exec(open(sys.argv[1]).read(), ns)
for sid, d in ns['S'].items():
    if len(sys.argv) > 2 and sid not in sys.argv[2:]:
        continue
    print(sid, make(sid, d), flush=True)
shutil.rmtree(SCR, ignore_errors=True)
