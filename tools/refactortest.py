#!/usr/bin/env python3
"""refactortest.py [name...]: applies behaviour-preserving edits (tools/refactors/*.py) to copies of /repo; the checks have to stay quiet"""
import glob, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []


def refactor(name, props, edits):
    R.append((name, props.split(), edits))


for f in sorted(glob.glob(V + '/tools/refactors/*.py')):
    exec(compile(open(f).read(), f, 'exec'), {'refactor': refactor})
for name, props, edits in R:
    if sys.argv[1:] and name not in sys.argv[1:]:
        continue
    W = '/tmp/rf_' + name
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', W], check=True)
    bad = False
    for f, old, new in edits:
        t = open(W + '/' + f).read()
        if t.count(old) != 1:  # comments may be in the way
            t = ''.join(l for l in t.splitlines(True) if not l.strip().startswith('//'))
        if t.count(old) != 1:
            print(name, 'BAD EDIT', f, t.count(old), repr(old[:60]))
            bad = True
        open(W + '/' + f, 'w').write(t.replace(old, new))
    for p in [] if bad else os.environ.get('RF_PROPS', ' '.join(props)).split():
        t0 = time.time()
        r = subprocess.run(['python3', 'run.py', p], cwd=V, env=dict(os.environ, VP_REPO=W), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(name, p, r.returncode, '%.0fs' % (time.time() - t0), 'quiet' if r.returncode == 0 else 'ALARM ' + r.stdout[-1500:], flush=True)
    shutil.rmtree(W)
