"""Write the table of planted bugs into DESIGN.md (between the heading 'Planted bugs' and the end)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), ' '.join(m['what_it_breaks'].split()).replace('|', '\\|'), m['property']))
s = open(root + '/DESIGN.md').read()
h = '## Planted bugs\n'
s = s[:s.index(h)] + h + '''
Each was written from the text of a property and the code, and confirmed in a scratch copy (stable tests pass, the demonstration fails only with it). Each is
caught by the quick tier of the check in the last column (`tools/trybugs.sh` runs them all). Those that were missed at first led to
larger alphabets: argument cells beyond the header (C01), mixed-case and common-prefix names (C06, C08), include names in mixed case (C06), None values in
searches (C08), wide documents (C01, C03, C04, C09), the class map at a preemption (C15), declared sections after a second part (C20).

| bug | what it breaks | caught by |
|---|---|---|
''' + '\n'.join(rows) + '\n'
open(root + '/DESIGN.md', 'w').write(s)
