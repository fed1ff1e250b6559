#!/usr/bin/env python3
"""mut.py PROPS FILE OLD NEW [FILE OLD NEW ...]: applies textual changes in a scratch copy of /repo and runs the quick checks against it."""
import os, sys, subprocess, shutil, tempfile
props = sys.argv[1].split(','); ch = sys.argv[2:]
d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
try:
    subprocess.run('cd ${BASE:-/repo} && git ls-files -z | xargs -0 cp --parents -t %s' % d, shell=True, check=True)
    for k in range(0, len(ch), 3):
        p = os.path.join(d, ch[k]); s = open(p).read()
        if s.count(ch[k + 1]) < 1: sys.exit('not found: ' + ch[k + 1])
        open(p, 'w').write(s.replace(ch[k + 1], ch[k + 2], 1))
    for p in props:
        r = subprocess.run(['python3', '/verif/bin/check.py', p, os.environ.get('TIER', 'quick')], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get('VERIF_SEED', '1')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        print(p, 'exit', r.returncode, '|', ' | '.join(r.stdout.strip().split('\n')[-3:])[-400:])
finally:
    shutil.rmtree(d)
