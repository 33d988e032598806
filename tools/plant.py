#!/usr/bin/env python3
"""plant.py [ID...]: (re)build /verif/seeded/<id>/ from tools/bugs.py, confirming each one in a scratch copy.

A bug is kept only when the stable tests pass with it and its demonstration passes without it and fails with it.
"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS, PREAMBLE

STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OPENBLAS_NUM_THREADS='1')


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=dict(ENV, PYTHONPATH=cwd), **k)


def main():
    want = sys.argv[1:]
    for b in BUGS:
        if want and b['id'] not in want:
            continue
        out = '/verif/seeded/' + b['id']
        t = tempfile.mkdtemp(prefix='plant')
        try:
            r = t + '/repo'
            shutil.copytree('/repo', r)
            run(['git', 'checkout', '-q', '--', '.'], r)
            os.makedirs(t + '/demo')
            with open(t + '/demo/demo.py', 'w') as f:
                f.write(PREAMBLE + b['demo'])
            with open(t + '/demo/demo.sh', 'w') as f:
                f.write('#!/bin/bash\n# run with cwd /repo after the build\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\n'
                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            a = run(['bash', t + '/demo/demo.sh'], r)
            for f, old, new in b['edits']:
                p = '%s/machup/%s' % (r, f)
                s = open(p, newline='').read()
                crlf = '\r\n' in s
                if crlf:
                    old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
                if s.count(old) != 1:
                    print(b['id'], 'PATTERN COUNT', s.count(old), f, repr(old)); break
                open(p, 'w', newline='').write(s.replace(old, new))
            else:
                z = run(['bash', t + '/demo/demo.sh'], r)
                k = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300',
                         '-rA', 'test/'], r)
                passed = sum(1 for l in k.stdout.splitlines() if l.startswith('PASSED'))
                ids = [s.split('::')[1] for s in STABLE]
                bad = [i for i in ids if not any(l.startswith('PASSED') and i.split('[')[0] in l for l in k.stdout.splitlines())]
                base = None
                ok = a.returncode == 0 and z.returncode != 0 and not bad
                print(b['id'], 'OK' if ok else 'BAD', 'clean', a.returncode, 'patched', z.returncode, 'tests failing', bad, 'passed', passed,
                      '' if ok else (a.stdout + a.stderr)[-800:] + (z.stdout)[-300:])
                if ok:
                    if '-v' in os.environ.get('PLANT', ''):
                        print((z.stdout + z.stderr)[-300:])
                    d = run(['git', 'diff', '--binary'], r).stdout
                    d = subprocess.run(['git', 'diff'], cwd=r, capture_output=True).stdout
                    shutil.rmtree(out, ignore_errors=True)
                    shutil.copytree(t + '/demo', out)
                    open(out + '/patch.diff', 'wb').write(d)
                    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                              open(out + '/meta.json', 'w'), indent=1)
        finally:
            shutil.rmtree(t)


main()
