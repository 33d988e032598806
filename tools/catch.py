#!/usr/bin/env python3
"""catch.py [ID...]: run the check of each planted bug's property (or PROPS=a,b) on a scratch copy with the bug applied."""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))


def one(i):
    d = '/verif/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    t = tempfile.mkdtemp(prefix='catch')
    try:
        shutil.copytree('/repo', t + '/repo')
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=t + '/repo', check=True)
        out = []
        for q in (os.environ.get('PROPS') or prop).split(','):
            t0 = time.time()
            e = dict(os.environ, VERIF_REPO=t + '/repo', VERIF_SCRATCH=t)
            r = subprocess.run(['/verif/check.py', q], env=e, capture_output=True, text=True)
            last = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')][:2]
            out.append('%-26s %s rc %d %.0fs %s' % (i, q, r.returncode, time.time() - t0, last))
        return '\n'.join(out)
    finally:
        shutil.rmtree(t)


with ThreadPoolExecutor(3) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
