#!/usr/bin/env python3
"""mut.py PROP[,PROP] FILE OLD NEW [--n K]: apply one textual change to a copy of /repo and run checks on it."""
import os, shutil, subprocess, sys, tempfile
prop, f, old, new = sys.argv[1:5]
nth = int(sys.argv[6]) if len(sys.argv) > 6 else 0
t = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/machup', t + '/machup')
    p = '%s/machup/%s' % (t, f)
    s = open(p).read()
    parts = s.split(old)
    if len(parts) < 2 + nth:
        sys.exit('pattern not found')
    s = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(p, 'w').write(s)
    for q in prop.split(','):
        e = dict(os.environ, VERIF_REPO=t, VERIF_SCRATCH=t)
        r = subprocess.run(['/verif/check.py', q], env=e, capture_output=True, text=True)
        print(q, 'rc', r.returncode, r.stdout[-1500:], r.stderr[-500:])
finally:
    shutil.rmtree(t)
