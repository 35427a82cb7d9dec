#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the descriptions in tools/seeds/*.py: each is a set of textual edits of /repo and a demonstration."""
import difflib, glob, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
OUT = os.path.join(HERE, '..', 'seeded')
SEEDS = []


def seed(id, prop, needs, breaks, edits, demo, lib=(), files=None):
    SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, lib=lib, files=files or {}))


def write(s):
    d = os.path.join(OUT, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    patch = ''
    byfile = {}
    for f, old, new in s['edits']:
        byfile.setdefault(f, []).append((old, new))
    for f, eds in byfile.items():
        src = subprocess.run(['git', '-C', REPO, 'show', 'HEAD:' + f], capture_output=True, text=True, check=True).stdout
        t = src
        for old, new in eds:
            if t.count(old) != 1:
                raise SystemExit('%s: %d occurrences of %r in %s' % (s['id'], t.count(old), old, f))
            t = t.replace(old, new)
        patch += ''.join(difflib.unified_diff(src.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(patch)
    lib = list(s['lib'])
    head = '#!/bin/bash\n'
    if 'app.sh' in lib:
        head += '. "$(dirname "$0")/app.sh"\n'
    elif lib:
        lib.append('setup.sh')
        head += '. "$(dirname "$0")/setup.sh"\n'
    else:
        head += 'D="$(cd "$(dirname "$0")" && pwd)"\nT="$(mktemp -d)"\ntrap \'rm -rf "$T"\' EXIT\nCXX="g++ -std=c++17 -O1 -g -w -I$PWD/src -I$D"\n'
    open(d + '/demo.sh', 'w').write(head + s['demo'].strip() + '\n')
    os.chmod(d + '/demo.sh', 0o755)
    for l in lib:
        shutil.copy(os.path.join(HERE, 'demolib', l), d)
    for n, c in s['files'].items():
        open(os.path.join(d, n), 'w').write(c.lstrip('\n'))
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)


for f in sorted(glob.glob(os.path.join(HERE, 'seeds', '*.py'))):
    exec(compile(open(f).read(), f, 'exec'))
only = sys.argv[1:]
for s in SEEDS:
    if not only or any(s['id'].startswith(o) for o in only):
        write(s)
print(len(SEEDS), 'seeds')
