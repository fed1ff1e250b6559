"""Shared machinery of the checks: running drivers in parallel, judging traces with TLC, reporting."""
import atexit, zlib, json, os, re, subprocess, sys, time, random, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, 'spec')
SCR = os.path.join(ROOT, '.cache', 'run')
NCPU = 8
sys.path.insert(0, HERE)

CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

def _clean():
    shutil.rmtree(os.path.join(SCR, str(os.getpid())), ignore_errors=True)
    for x in (os.listdir(SCR) if os.path.isdir(SCR) else []):
        if not os.path.exists('/proc/' + x): shutil.rmtree(os.path.join(SCR, x), ignore_errors=True)
atexit.register(_clean)

def scratch(name):
    d = os.path.join(SCR, str(os.getpid()), name); shutil.rmtree(d, ignore_errors=True); os.makedirs(d); return d

def run_driver(binary, chunks, d, env=None, timeout=600):
    """chunks: list of program texts, one process each. Returns list of (chunk index, output file, returncode)"""
    def one(k):
        inp = os.path.join(d, 'p%d.txt' % k); out = os.path.join(d, 't%d.ndjson' % k)
        with open(inp, 'w') as f: f.write(chunks[k])
        e = dict(os.environ); e.update(env or {})
        try:
            p = subprocess.run([binary, inp, out], stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, 'e%d.txt' % k), 'w'), env=e, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -99
        return k, out, rc
    with cf.ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, range(len(chunks))))

def chunked(items, n):
    n = max(1, min(n, len(items)))
    out = [[] for _ in range(n)]
    for i, x in enumerate(items): out[i % n].append(x)
    return [c for c in out if c]

class TlcError(Exception): pass

def tlc(spec, cfg, d, env=None, workers=NCPU, mem='8g', timeout=800, extra=(), deadlock=True):
    """runs TLC in spec/; returns (rc, output). deadlock=False switches the deadlock check off"""
    meta = os.path.join(d, 'tlc-' + os.path.basename(cfg)); shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ); e.update(env or {})
    cmd = ['java', '-Djava.io.tmpdir=' + d, '-Xmx' + mem, '-XX:+UseParallelGC', '-Xss64m', '-cp', CP,
           'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + ([] if deadlock else ['-deadlock']) + list(extra) + [spec]
    p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout

STATES = re.compile(r'([\d,]+) states generated, ([\d,]+) distinct states found')
def tlc_states(out):
    m = None
    for m in STATES.finditer(out): pass
    return (int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))) if m else (0, 0)

REJ = re.compile(r'<<\s*"REJECT",\s*(-?\d+),\s*(-?\d+),\s*\{(.*?)\}\s*>>', re.S)
PAIR = re.compile(r'<<\s*(\d+),\s*"([^"]*)"\s*>>')
def tlc_rejects(out):
    return [(int(m.group(1)), int(m.group(2)), [(int(a), b) for a, b in PAIR.findall(m.group(3))]) for m in REJ.finditer(out)]

def judge(spec, cfg, lines, d, expect_states=None, timeout=800, par=NCPU, mem='3g'):
    """TLC over recorded traces (JSON lines), split over several TLC processes. Returns (rejects, (generated, distinct));
    raises TlcError on anything but a clean run. expect_states: function from the parsed trace to its number of states"""
    if isinstance(lines, str): lines = open(lines).read().splitlines()
    lines = [l for l in lines if l.strip()]
    if not lines: return [], (0, 0)
    # runs that broke down: a random sample is enough, and of bounded size
    odd = [l for l in lines if '"rc":0,' not in l]
    if len(odd) > 300 or sum(map(len, odd)) > 1500000:
        odd.sort(key=lambda l: zlib.crc32(l.encode()))
        keep, size = set(), 0
        for l in sorted(odd[:300], key=len):
            size += len(l)
            if size > 1500000 and len(keep) > 3: break
            keep.add(l)
        lines = [l for l in lines if '"rc":0,' in l or l in keep]
    parts = chunked(lines, max(1, min(par, (len(lines) + 99) // 100 + sum(map(len, lines)) // 100000)))
    def one(k):
        f = os.path.join(d, 'judge-%s-%d.ndjson' % (spec.split('.')[0], k))
        with open(f, 'w') as o: o.write('\n'.join(parts[k]) + '\n')
        meta = os.path.join(d, 'tlcj-%s-%d' % (spec.split('.')[0], k)); shutil.rmtree(meta, ignore_errors=True)
        e = dict(os.environ); e['TRACES'] = f
        cmd = ['java', '-Djava.io.tmpdir=' + d, '-Xmx' + mem, '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xss64m', '-cp', CP, 'tlc2.TLC', '-workers', '1', '-metadir', meta,
               '-noGenerateSpecTE', '-deadlock', '-config', cfg, spec]
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
        shutil.rmtree(meta, ignore_errors=True)
        st = tlc_states(p.stdout)
        if p.returncode != 0 or 'Model checking completed. No error' not in p.stdout: raise TlcError(p.stdout[-4000:])
        if expect_states:
            n = sum(expect_states(json.loads(l)) for l in parts[k])
            if st[1] != n: raise TlcError('expected %d states, TLC found %d\n%s' % (n, st[1], p.stdout[-2000:]))
        os.unlink(f)
        return tlc_rejects(p.stdout), st
    with cf.ThreadPoolExecutor(par) as ex: rs = list(ex.map(one, range(len(parts))))
    return [r for x in rs for r in x[0]], (sum(x[1][0] for x in rs), sum(x[1][1] for x in rs))

def trace_states(x): return len(x['ev']) + 2

def run_model(rep, spec, cfg, name=None, timeout=800, workers=NCPU, mem='8g', text=None, deadlock=False, sim=0, wrong=False):
    """model checking of a specification on its own; the result does not depend on the code.  text: the configuration;
    sim: that many random behaviours instead of all; wrong: a variant with a defect, which has to be found"""
    name = name or cfg.replace('.cfg', '')
    d = scratch('model-' + name)
    if text:
        cfg = os.path.join(d, name + '.cfg')
        with open(cfg, 'w') as f: f.write(text)
    extra = ['-simulate', 'num=%d' % max(1, sim // workers), '-depth', '3000', '-seed', '1'] if sim else []
    rc, out = tlc(spec, cfg, d, workers=workers, timeout=timeout, mem=mem, deadlock=deadlock, extra=extra)
    if wrong:
        if not re.search(r'Invariant \w+ is violated|Deadlock reached', out): raise TlcError('%s %s: the defect is not found\n%s' % (spec, name, out[-3000:]))
    elif rc != 0 or (not sim and 'No error has been found' not in out) or (sim and 'traces generated' not in out): raise TlcError('%s %s\n%s' % (spec, name, out[-3000:]))
    rep.model(name, out)

def family(name, n):
    """the programs of a family of spec/Programs.tla, enumerated by TLC"""
    d = scratch('gen-%s-%d' % (name, n))
    cfg, out = os.path.join(d, 'g.cfg'), os.path.join(d, 'out.ndjson')
    with open(cfg, 'w') as f: f.write('INIT Init\nNEXT Next\nCONSTANTS N = %d\n Family = "%s"\nCHECK_DEADLOCK FALSE\n' % (n, name))
    rc, o = tlc('GenPrograms.tla', cfg, d, env={'OUT': out}, workers=1, mem='4g')
    if rc != 0: raise TlcError(o[-3000:])
    return sorted(open(out).read().splitlines())
