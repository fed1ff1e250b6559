#!/usr/bin/env python3
"""mutate.py SEED COUNT OUT [FILEREGEX]: random mutants of /repo's sources, each judged by the checks of the properties its file matters to.
Survivors are candidates for weaknesses of the checks (or equivalent)."""
import json, os, random, re, subprocess, sys, tempfile, shutil, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    r'scheduler/(event|event_ptr)\.|property/graph|redGrapes\.(cpp|hpp)|execute\.cpp|task_base|task_space|task/task\.hpp|future\.hpp|thread/worker|default_scheduler|task_builder|task/queue': ['ALL'],
    r'thread/worker_pool|bitfield': ['C16', 'ALL'],
    r'chunked_list': ['C15', 'ALL'],
    r'memory/|atomic_list': ['C17', 'ALL'],
    r'tag_match': ['C18', 'C22'],
    r'request_pool': ['C20'],
    r'resource/access/': ['C11', 'C13', 'C12'],
    r'fieldresource|ioresource': ['C12', 'C22', 'C13'],
    r'property/(resource|id|label|inherit|trait)|task_builder|trait': ['C22', 'C13', 'C10'],
    r'resource/resource': ['C13', 'C11', 'C22', 'ALL'],
    r'sync/': ['C14'],
}
SKIP = re.compile(r'cuda|cupla|trace\.|version|config|cpuset')
def muts(path, text):
    lines = text.split('\n')
    out = []
    incomment = False
    fm = text.find('struct fmt::formatter'); fmline = text[:fm].count('\n') if fm >= 0 else 10**9
    for i, l in enumerate(lines):
        s = l.strip()
        if '/*' in s and '*/' not in s: incomment = True
        if incomment:
            if '*/' in s: incomment = False
            continue
        if i >= fmline - 1 or not s or s.startswith(('//', '*', '/*', '#', 'SPDLOG', 'spdlog', 'TRACE', 'template', 'using', 'typedef', 'namespace', 'struct', 'static inline', 'virtual', 'friend', 'extern', 'typename')): continue
        def add(kind, new): out.append((path, i, kind, new))
        if s.endswith(';') and re.match(r'[\w:\->.()*&\[\]+ ]+(\(|\+\+|--|=|;)', s) and not re.match(r'(return|break|continue|auto|bool|int|unsigned|size_t|uint\w+|std::atomic|static|const|throw|Task\*|std::\w+ *<.*> \w+;|T \w+|[\w:<>]+ \w+;|[\w:]+&? const|inline|case)', s) or re.match(r'std::(unique_lock|lock_guard)', s):
            add('del', [''])
            # statements on neighbouring lines
            if i + 1 < len(lines) and lines[i + 1].strip().endswith(';') and re.match(r'[\w:\->.()*&\[\]+ ]+(\(|\+\+|--|=)', lines[i + 1].strip()) and not lines[i + 1].strip().startswith(('return', 'SPDLOG')) and len(lines[i + 1]) - len(lines[i + 1].lstrip()) == len(l) - len(l.lstrip()):
                out.append((path, i, 'swap', [lines[i + 1], l]))
        m = re.match(r'(if|while)\((.*)\)$', s)
        if m and not s.startswith('if constexpr') and '=' not in re.sub(r'[=!<>]=', '', m[2]):
            ind = l[:len(l) - len(l.lstrip())]
            add('neg', [ind + '%s(!(%s))' % (m[1], m[2])])
            if m[1] == 'if':
                add('true', [ind + 'if(true)'])
                add('false', [ind + 'if(false)'])
            else: add('once', [ind + 'if(%s)' % m[2]])
        for a, b in ((' <= ', ' < '), (' < ', ' <= '), (' >= ', ' > '), (' > ', ' >= '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' || ', ' && '), (' + 1', ''), (' - 1', ''), ('true', 'false'), ('false', 'true'),
                     ('++', '--'), ('.fetch_sub(1)', '.fetch_sub(0)'), ('begin', 'end'), ('|= ', '= '), ('return true', 'return false')):
            if a in l and not ('template' in l or ('<' in a and ('<<' in l or 'include' in l)) or 'operator' in l and a.strip() in ('==', '!=', '++')): out.append((path, i, '%s->%s' % (a.strip(), b.strip()), [l.replace(a, b, 1)]))
    return out
def main():
    seed, count, outp = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
    files = subprocess.run(['git', '-C', '/repo', 'ls-files', 'redGrapes'], capture_output=True, text=True).stdout.split()
    all_ = []
    for f in files:
        if SKIP.search(f) or not rx.search(f) or not f.endswith(('pp',)): continue
        all_ += muts(f, open('/repo/' + f).read())
    rng = random.Random(seed)
    rng.shuffle(all_)
    print(len(all_), 'mutants')
    # spread over the files
    done = {}
    pick = []
    for m in all_:
        if done.get(m[0], 0) < max(3, count // 8): pick.append(m); done[m[0]] = done.get(m[0], 0) + 1
        if len(pick) == count: break
    for path, i, kind, new in pick:
        d = tempfile.mkdtemp(prefix='mutant-', dir='/tmp')
        t0 = time.time()
        try:
            subprocess.run('cd /repo && git ls-files -z | xargs -0 cp --parents -t ' + d, shell=True, check=True)
            p = os.path.join(d, path)
            L = open(p).read().split('\n')
            old = L[i:i + len(new)]
            L[i:i + len(new)] = new
            open(p, 'w').write('\n'.join(L))
            props = []
            for r, ps in FILES.items():
                if re.search(r, path): props += [x for x in ps if x not in props]
            res = {'file': path, 'line': i + 1, 'kind': kind, 'old': old, 'new': new, 'by': None, 'rules': None}
            for pr in props:
                try:
                    r = subprocess.run([sys.executable, ROOT + '/tools/check_all.py', pr], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    res['by'] = pr + ' TIMEOUT'; break
                if 'BUILD FAILED' in r.stdout: res['by'] = 'compiler'; break
                if r.returncode == 1: res['by'] = pr; res['rules'] = [x for x in r.stdout.split('\n') if 'broken' in x]; break
                if r.returncode != 0: res['by'] = pr + ' ERROR'; res['rules'] = (r.stdout + r.stderr)[-600:]; break
            res['t'] = round(time.time() - t0)
            open(outp, 'a').write(json.dumps(res) + '\n')
        finally:
            shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__': main()
