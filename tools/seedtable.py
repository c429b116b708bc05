"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re
rows = ['| id | check | needs |', '|---|---|---|']
for p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(p)),
                                      m['property'], m['needs']))
s = open('/verif/DESIGN.md').read()
a = '<!-- seeds -->\n'
t = a + '\n'.join(rows) + '\n' + a
s = re.sub(r'(?s)SEEDTABLE\n|<!-- seeds -->.*<!-- seeds -->\n', lambda _: t, s)
open('/verif/DESIGN.md', 'w').write(s)
print(len(rows)-2)
