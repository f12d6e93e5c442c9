"""Development tool: writes the repaired defects to KNOWN_FINDINGS.jsonl, from the fix: commits of /repo"""
import json, subprocess
P = '''ada4c92 C03|638544a C03|0c90545 C04|2c6bc43 C09|0f7ba1c C09|68c858e C09|d179432 C09|62868a8 C09|5d7dfb7 C15|f6728c8 C09
ac3c4a9 C09|ecdfaa6 C09|730f56d C06|e11ec55 C06|5f5c242 C06|7b8cad0 C01|ff18b84 C01|6729211 C13|d36e58e -|15b184b C12|0826009 C08
09cbdc2 C10|1565a23 C10|a12e959 C13|c590021 C07|f79df41 C07|6e6138d C20|fe73798 C01|7a4a273 C17|fbd4e8f C03|b4537c1 C03|2a70fb3 C01
d6056ac C01|3932dc2 C01|eefa346 C02|26d298f C06|6f4b627 C01|96ba859 C01|c43035d C11|ebd0597 C07|51027dc C02|fb31bdd C08|23ac312 C11
e5f33e1 C04|405e595 C06|cd00d7c C07|8ca36fd C07'''
extra = {}
try:
    exec(open('/verif/tools/findings_map.py').read(), extra)
except FileNotFoundError:
    pass
m = dict(e.split() for l in P.splitlines() for e in l.split('|'))
m.update(extra.get('M', {}))
log = subprocess.run("git -C /repo log --reverse --format='%h %s' 6ccfeef..HEAD", shell=True, capture_output=True, text=True).stdout
keep = []
try:
    keep = [l for l in open('/verif/KNOWN_FINDINGS.jsonl') if l.strip() and json.loads(l)['status'] == 'known']
except FileNotFoundError:
    pass
with open('/verif/KNOWN_FINDINGS.jsonl', 'w') as f:
    for l in keep:
        f.write(l)
    for line in log.splitlines():
        h, s = line.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        p = m.get(h, '?')
        if p == '?':
            print('no property for', line)
        if p == '-':
            continue
        s = s[len('fix: '):]
        f.write(json.dumps(dict(property=p, status='fixed', key=h, what=s, text='fixed: property=%s %s %s' % (p, h, s))) + '\n')
