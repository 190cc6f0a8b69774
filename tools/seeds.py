#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md"""
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
rows = ['| planted bug | caught by | what it breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob('seeded/*')):
    m = json.load(open(d + '/meta.json'))
    rows.append('| %s | %s | %s | %s |' % (d[7:], m['property'], m['what_it_breaks'], m['needs']))
s = open('DESIGN.md').read()
a, b = s.index('<!-- seeds -->\n') + len('<!-- seeds -->\n'), s.index('<!-- /seeds -->')
open('DESIGN.md', 'w').write(s[:a] + '\n'.join(rows) + '\n' + s[b:])
