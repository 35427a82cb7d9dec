#!/usr/bin/env python3
# Rewrites SPACE in props.py (copied into the evidence) from the per-property table of DESIGN.md.
import os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for l in open(root + '/DESIGN.md'):
    m = re.match(r'\| (C\d\d) \| (.*) \| (.*) \| (.*) \| \d+ \|$', l.rstrip('\n'))
    if m: rows[m[1]] = f'enumerated: {m[2]}; oracle: {m[3]}; quick bounds: {m[4]} (the thorough tier enlarges them)'
s = open(root + '/props.py').read()
a = s.index('SPACE = {\n'); b = s.index('}\n', a) + 2
s = s[:a] + 'SPACE = {\n' + ''.join(f'    {k!r}: {rows[k]!r},\n' for k in sorted(rows)) + '}\n' + s[b:]
open(root + '/props.py', 'w').write(s)
