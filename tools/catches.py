#!/usr/bin/env python3
"""Rewrite the table of planted bugs in DESIGN.md section 7 from seeded/*/meta.json."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# missed when first planted; the check was strengthened until it reported them
FIRST_MISSED = set("""relative-root returned-alias set-goes-on um-clean-prefix tables-shared set-shares-results no-first-cone empty-chunk-ends cm-plain unload-anyway""".split())
extra = os.path.join(ROOT, 'tools', 'bugs', 'missed.txt')
still = set()
if os.path.exists(extra):
    for line in open(extra):
        a = line.split()
        if a:
            (FIRST_MISSED if a[0] == 'first' else still).update(a[1:])
rows = []
for f in glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json')):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append((m['property'], i, m['needs'], m['what_it_breaks']))
rows.sort()
t = ['| check | planted bug | needs | breaks |', '|---|---|---|---|']
for p, i, n, b in rows:
    t.append('| %s%s | %s%s | %s | %s |' % ('missed by ' if i in still else '', p, i, ' (*)' if i in FIRST_MISSED else '', n.replace('|', '/'), b.replace('|', '/')))
t.append('')
t.append('%d bugs, %d reported by the check of their property; (*) = missed when first planted, the check was strengthened until it reported it.' % (len(rows), len(rows) - len(still & {r[1] for r in rows})))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
new = '<!-- catches -->\n' + '\n'.join(t) + '\n<!-- /catches -->'
if 'CATCHES_TABLE' in s:
    s = s.replace('CATCHES_TABLE', new)
else:
    a, b = s.index('<!-- catches -->'), s.index('<!-- /catches -->') + len('<!-- /catches -->')
    s = s[:a] + new + s[b:]
open(p, 'w').write(s)
print(t[-1])
