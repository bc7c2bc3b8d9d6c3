"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ''
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows += '| %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'])
p = V + '/DESIGN.md'
s = open(p).read()
h = '| seed | property | what it breaks |\n|---|---|---|\n'
a = s.index(h) + len(h)
b = a
while s[b:b + 1] == '|':
    b = s.index('\n', b) + 1
open(p, 'w').write(s[:a] + rows + s[b:])
