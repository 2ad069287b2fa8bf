#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m['property'],
                                  m['what_it_breaks'].replace('|', '/').replace('\n', ' ').split('. ')[0][:150]))
t = "<!-- seeds -->\n| planted bug | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = root + '/DESIGN.md'
s = open(p).read()
if '@@SEEDS@@' in s:
    s = s.replace('@@SEEDS@@', t)
else:
    s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
