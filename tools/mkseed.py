"""mkseed.py BATCH.py [ID...]: writes /verif/seeded/<id>/ from the descriptions in a batch file.
A batch file defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo, config=None, files={})]"""
import json, os, re, runpy, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
batch = runpy.run_path(sys.argv[1])['SEEDS']
want = set(sys.argv[2:])
for s in batch:
    if want and s['id'] not in want: continue
    d = '%s/seeded/%s' % (ROOT, s['id'])
    os.makedirs(d, exist_ok=True)
    diff = ''
    w = subprocess.run(['mktemp', '-d'], capture_output=True, text=True).stdout.strip()
    subprocess.check_call(['git', 'clone', '-q', '-s', '/repo', w + '/r'])
    for f, old, new in s['edits']:
        p = w + '/r/' + f
        t = open(p).read()
        if t.count(old) != 1: sys.exit('%s: %s: %d matches of %r' % (s['id'], f, t.count(old), old))
        i = t.index(old)
        first = t[:i].count('\n') + 1
        last = first + old.rstrip('\n').count('\n')
        t = t.replace(old, new)
        open(p, 'w').write(t)
    diff = subprocess.run(['git', '-C', w + '/r', 'diff', '-U3'], capture_output=True, text=True).stdout
    # which of the removed lines are the repository's own?
    for f in {f for f, _, _ in s['edits']}:
        bl = subprocess.run(['git', '-C', '/repo', 'blame', '-l', 'HEAD', '--', f], capture_output=True, text=True).stdout.split('\n')
        hunks = subprocess.run(['git', '-C', w + '/r', 'diff', '-U0', f], capture_output=True, text=True).stdout
        n = own = 0
        for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', hunks, re.M):
            for k in range(int(m[1]), int(m[1]) + int(m[2] or 1)):
                n += 1
                own += bl[k - 1].startswith('^')
        print(s['id'], f, 'changes %d lines, %d original' % (n, own))
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    for x in ('demo.sh', 'demo.h', 'redGrapes_config.hpp'): shutil.copy(ROOT + '/tools/seeds/' + x, d + '/' + x)
    if s.get('config'): open(d + '/redGrapes_config.hpp', 'w').write(s['config'])
    for n, c in s.get('files', {}).items(): open(d + '/' + n, 'w').write(c)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
