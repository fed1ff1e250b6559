#!/usr/bin/env python3
"""Builds harness binaries from /repo's current working tree, cached by content.

build(target, cfg) -> path of the binary. Objects are cached under /verif/.cache keyed by the hash of the
compiler command line and of every source and header of /repo and /verif that goes in, so a change anywhere in /repo rebuilds exactly what it affects."""
import hashlib, os, subprocess, sys, glob, concurrent.futures, fcntl, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

def repo_sources():
    """the sources the project's own build puts into the library"""
    import re
    r = []
    try:
        txt = open(REPO + '/redGrapesConfig.cmake').read()
        for m in re.findall(r'\$\{CMAKE_CURRENT_LIST_DIR\}/(redGrapes/\S+?\.cpp)', txt):
            if os.path.exists(REPO + '/' + m): r.append(REPO + '/' + m)
    except OSError:
        pass
    if not r:
        for p in sorted(glob.glob(REPO + '/redGrapes/**/*.cpp', recursive=True)):
            if '/cuda/' in p or '/cupla/' in p: continue
            r.append(p)
    return r

GPP = ['g++', '-std=c++17', '-w', '-g1', '-pipe']
INST = ['-fsanitize=thread', '--param', 'tsan-distinguish-volatile=1', '--param', 'tsan-instrument-func-entry-exit=0']
DEFS = ['-DBOOST_CONTEXT_DYN_LINK', '-DBOOST_CONTEXT_NO_LIB', '-DSPDLOG_FMT_EXTERNAL', '-DSPDLOG_COMPILED_LIB', '-DSPDLOG_SHARED_LIB', '-DFMT_SHARED']
LIBS = ['-lspdlog', '-lfmt', '-lboost_context', '-lpthread', '-ldl']
WRAP = ['-Wl,--wrap=_ZN9redGrapes6memory13BumpAllocator8allocateEm',
        '-Wl,--wrap=_ZN9redGrapes6memory13BumpAllocator10deallocateENS0_5BlockE']

class BuildError(Exception): pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

_hc = {}
def fhash(p):
    try:
        st = os.stat(p)
    except OSError:
        return None
    k = (p, st.st_mtime_ns, st.st_size)
    if k not in _hc:
        _hc[k] = hashlib.sha256(open(p, 'rb').read()).hexdigest()
    return _hc[k]

def relevant(p):
    return p.startswith(REPO + '/') or p.startswith(VERIF + '/')

def compile_obj(src, flags):
    """returns the path of the object file. Objects are keyed by command line, source and the contents of all
    headers from /repo and /verif the compiler reported (candidate lists in .m files)"""
    base = hashlib.sha256((' '.join(GPP + flags) + '\0' + src + '\0' + str(fhash(src))).encode()).hexdigest()[:32]
    man = os.path.join(CACHE, 'm', base)
    if os.path.exists(man):
        for line in open(man):
            f = line.rstrip('\n').split('\t')
            obj = os.path.join(CACHE, 'o', f[0] + '.o')
            if os.path.exists(obj) and all(fhash(d.rsplit('=', 1)[0]) == d.rsplit('=', 1)[1] for d in f[1:]):
                os.utime(obj); return obj
    for d in ('m', 'o'): os.makedirs(os.path.join(CACHE, d), exist_ok=True)
    tmp = os.path.join(CACHE, 'o', '%s.%d.%x.tmp' % (base, os.getpid(), id(src)))
    c = run(GPP + flags + ['-MD', '-MF', tmp + '.d', '-MT', 'x', '-c', src, '-o', tmp])
    if c.returncode != 0:
        raise BuildError('compiling %s failed:\n%s' % (src, c.stderr.decode()[-4000:]))
    deps = open(tmp + '.d').read().replace('\\\n', ' ').split()[1:]
    os.unlink(tmp + '.d')
    deps = sorted(set(os.path.normpath(d) for d in deps if relevant(os.path.normpath(d))))
    ds = ['%s=%s' % (d, fhash(d)) for d in deps]
    key = hashlib.sha256((base + '\0'.join(ds)).encode()).hexdigest()[:32]
    os.rename(tmp, os.path.join(CACHE, 'o', key + '.o'))
    with open(man, 'a') as f:
        f.write('\t'.join([key] + ds) + '\n')
    return os.path.join(CACHE, 'o', key + '.o')

def build(target, cfg='small', instrument=True, opt='-O0', extra=(), withrepo=True, libs=()):
    inc = ['-I' + VERIF + '/drv/cfg_' + cfg, '-I' + VERIF + '/drv', '-I' + VERIF + '/rt', '-I' + REPO]
    inc += ['-I' + p for p in extra_inc()] + (['-I' + VERIF + '/drv/mpistub'] if target == 'mpi' else [])
    f_inst = [opt] + (INST if instrument else []) + DEFS + inc + list(extra)
    f_rt = ['-O2', '-fno-threadsafe-statics'] + inc
    work = []
    if withrepo:
        work += [(s, f_inst) for s in repo_sources()]
    work += [(VERIF + '/drv/%s.cpp' % target, f_inst)]
    work += [(VERIF + '/drv/%s.cpp' % s, f_rt) for s in (('obs', 'runner') if target == 'tasks' else ('obs', 'runner', 'script'))]
    work += [(VERIF + '/rt/vsched.cpp', f_rt)]
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda w: compile_obj(*w), work))
    key = hashlib.sha256((' '.join(objs) + ' '.join(WRAP + LIBS) + ' '.join(libs)).encode()).hexdigest()[:32]
    binp = os.path.join(CACHE, 'b', '%s-%s-%s' % (target, cfg, key))
    if not os.path.exists(binp):
        os.makedirs(os.path.dirname(binp), exist_ok=True)
        tmp = binp + '.%d.tmp' % os.getpid()
        # the instrumented objects are linked against our own implementation of the instrumentation callbacks
        c = run(['g++', '-no-pie', '-rdynamic', '-o', tmp] + objs + WRAP + LIBS + list(libs))
        if c.returncode != 0:
            raise BuildError('linking failed:\n' + c.stderr.decode()[-4000:])
        os.rename(tmp, binp)
    return binp

def extra_inc():
    # moodycamel and friends: where the project's own build finds them
    return [REPO + '/share/thirdParty/cameron314/concurrentqueue/include']

def prune(limit=3 << 30):
    fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(CACHE + '/*/*') if os.path.isfile(p)]
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot < limit: break
        os.unlink(p); tot -= s

if __name__ == '__main__':
    print(build(sys.argv[1], *(sys.argv[2:3] or ['small'])))
