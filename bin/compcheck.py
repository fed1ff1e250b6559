"""Checks of components: scripts (lists of calls per thread) are executed by the real code under the controlled
scheduler; TLC judges every recorded trace against the component's TLA+ module."""
import collections, json, os, random, re, time
from vlib import *
import build

def sched_lines(rng, n, est=300, first=1, spurious=0.1, plain=True):
    o = []
    for k in range(n):
        st = 0 if rng.random() < 0.6 else 1
        ps = rng.choice((1, 2, 2, 3, 5, 8, 15, 30))
        pl = rng.choice((0, 0, 4, 12)) if plain else 0
        sp = rng.choice((5, 20, 100)) if rng.random() < spurious else 0
        o.append('S %d %d %d %d %d %d %d %d' % (first + k, rng.getrandbits(48), st, ps, rng.randint(1, 5), rng.choice((est // 4, est, est * 2)), pl, sp))
    return o

def script(pid, args, threads):
    """threads: list of lists of op tuples"""
    o = ['P %d %s' % (pid, ' '.join(map(str, args)))]
    for t, ops in enumerate(threads):
        for op in ops: o.append('O %d %s' % (t, ' '.join(str(x - (1 << 64) if isinstance(x, int) and x >= 1 << 63 else x) for x in op)))
    return '\n'.join(o)

def execute(binary, chunks, d, budget):
    res = run_driver(binary, chunks, d, env={'VS_BUDGET': str(budget)}, timeout=budget + 150)
    lines, bad = [], []
    for k, out, rc in res:
        if not os.path.exists(out): continue
        for l in open(out, errors='replace'):
            try: json.loads(l); lines.append(l)
            except ValueError: bad.append(l)
    return lines, bad, [rc for _, _, rc in res]

def judge_traces(spec, lines, d):
    cfg = spec.replace('.tla', '.cfg')
    seen, uniq = set(), []
    for l in lines:
        k = l[l.index('"ev":'):] + l[:l.index(',')]
        if k not in seen: seen.add(k); uniq.append(l)
    try:
        rej, st = judge(spec, cfg, uniq, d, trace_states)
        return rej, st, len(uniq)
    except (TlcError, subprocess.TimeoutExpired) as e:
        err = e
    # a trace of a run that broke down may not be evaluable: isolate it
    odd = [l for l in uniq if json.loads(l)['rc'] != 0]
    ok = [l for l in uniq if json.loads(l)['rc'] == 0]
    if not odd: raise err
    r1, s1 = judge(spec, cfg, ok, d, trace_states)
    rej = r1
    for l in odd[:40]:
        try:
            r, s = judge(spec, cfg, [l], d, trace_states); rej = rej + r
        except TlcError:
            x = json.loads(l); rej = rej + [(x['p'], x['id'], [(0, 'run.Malformed')])]
    return rej, s1, len(uniq)

def campaign(rep, pid, tier, seed, target, spec, progs, k, cfg='small', est=300, budget=60, label=None, rulefilter=None, spurious=0.1, plain=True):
    """progs: list of script texts (numbered by the P line). Runs each under k schedules and judges."""
    rng = random.Random('%s-%s-%d-%s' % (pid, target, seed, tier))
    binary = build.build(target, cfg)
    keep = rulefilter or (lambda r: True)
    by = {int(p.split()[1]): p for p in progs}
    sch = {i: sched_lines(rng, k, est, spurious=spurious, plain=plain) for i in by}
    d = scratch('%s-%s-%s' % (pid, tier, target))
    lines, bad, rcs = execute(binary, [''.join(c) for c in chunked([by[i] + '\n' + '\n'.join(sch[i]) + '\n' for i in by], NCPU * 2)], d, min(budget, rep.left() / 2))
    if any(rcs): rep.note('driver_rc', rcs)
    rej, st, nu = judge_traces(spec, lines, d)
    ids = [(re.search(r'"p":\s*(\d+),', l), re.search(r'"id":\s*(\d+),', l)) for l in bad]
    rej += [(int(a.group(1)), int(b.group(1)), [(0, 'run.Malformed')]) for a, b in ids if a and b]
    rep.traces += nu; rep.states += st[1]; rep.transitions += max(0, st[0] - nu); rep.runs += len(lines)
    kinds = collections.Counter()
    for l in lines[::31]:
        for e in json.loads(l)['ev']: kinds[e[0]] += 1
    old = rep.notes.get('events_sampled', {})
    for a, b in kinds.items(): old[a] = old.get(a, 0) + b
    rep.note('events_sampled', old)
    if lines:
        x = json.loads(lines[len(lines) // 2]); rep.sample({'driver': target, 'script': by[x['p']].split('\n')[:20], 'trace': x['ev'][:40]})
    n = 0
    for p, i, why in sorted(rej):
        rs = sorted(set(w for _, w in why if keep(w)))
        if not rs: continue
        n += 1
        if n > 6: break
        sc = [s for s in sch[p] if int(s.split()[1]) == i][0]
        rs2, sc2, ev = confirm(binary, spec, by[p], sc, seed, scratch('%s-%s-%s-c' % (pid, tier, target)), keep, est)
        if rs2:
            rep.violation(target, cfg, by[p] + '\n' + sc2 + '\n', rs2, ev)
            return
        rep.note('unconfirmed', (target, p, i, rs))

def confirm(binary, spec, prog, sched, seed, d, keep, est):
    for attempt in range(3):
        rng = random.Random(seed * 1000 + attempt)
        ss = [sched] if attempt < 2 else sched_lines(rng, 400, est, first=1000 * attempt)
        lines, bad, _ = execute(binary, [prog + '\n' + '\n'.join(q) + '\n' for q in chunked(ss, NCPU)], d, 60)
        if bad: return ['run.Malformed'], sched, None
        rej, _, _ = judge_traces(spec, lines, d)
        for p, i, why in rej:
            rs = sorted(set(w for _, w in why if keep(w)))
            if rs:
                ln = [l for l in lines if json.loads(l)['id'] == i]
                return rs, [s for s in ss if int(s.split()[1]) == i][0], json.loads(ln[0])['ev'] if ln else None
    return [], None, None

# ---------------------------------------------------------------- C14
def sync_programs(rng, n):
    o = []
    for i in range(1, n + 1):
        if rng.random() < 0.7:
            T = rng.randint(1, 3)
            th = [[('wait',) if rng.random() < 0.85 else ('pause', rng.randint(1, 3)) for _ in range(rng.randint(1, 4))]]
            for t in range(T): th.append([('notify',) if rng.random() < 0.85 else ('pause', rng.randint(1, 3)) for _ in range(rng.randint(1, 4))])
            o.append(script(i, ['cv', rng.choice((0, 0, 1, 2, 3))], th))
        else:
            th = [[('lock', rng.randint(0, 3)) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 4))]
            o.append(script(i, ['lock'], th))
    return o
def sync(pid, tier, seed, rep):
    rng = random.Random('sync-%d-%s' % (seed, tier))
    n, k = (1500, 16) if tier == 'quick' else (6000, 60)
    campaign(rep, pid, tier, seed, 'sync', 'SyncTrace.tla', sync_programs(rng, n), k, est=120, budget=80 if tier == 'quick' else 600)

# ---------------------------------------------------------------- C15
def list_programs(rng, n):
    o = []
    for i in range(1, n + 1):
        T = rng.choice((1, 2, 2, 3, 3, 4))
        th = []; v = 0; allv = []
        style = rng.random()
        for t in range(T):
            ops = []; own = []
            for _ in range(rng.randint(1, 7 if T < 3 else 4)):
                x = rng.random()
                if x < 0.34 or not allv: v += 1; ops.append(('push', v)); allv.append(v)
                elif x < 0.5: v += 1; ops.append(('hold', v)); own.append(v); allv.append(v)
                elif x < 0.62 and own:
                    k = rng.choice(own); ops.append(('rmh', k))
                    if rng.random() < 0.5: ops.append(('look', k))
                elif x < 0.68 and own: ops.append(('drop', rng.choice(own)))
                elif x < 0.72 and own: ops.append(('dup', rng.choice(own)))
                elif x < 0.80: ops.append(('rm', rng.choice(allv)))
                elif x < 0.86: ops.append(('era', rng.choice(allv)))
                elif x < 0.94: ops.append(('iter',))
                elif x < 0.97: ops.append(('scan', rng.randint(0, 3)))
                else: ops.append(('cont',))
            th.append(ops)
        if style < 0.5:
            # thread 0 fills first, the others work on its elements
            pass
        o.append(script(i, [rng.choice((1, 2, 2, 3, 3, 4, 8))], th))
    return o
def lst(pid, tier, seed, rep):
    rng = random.Random('list-%d-%s' % (seed, tier))
    n, k = (2400, 12) if tier == 'quick' else (12000, 30)
    campaign(rep, pid, tier, seed, 'list', 'ListTrace.tla', list_programs(rng, n), k, est=1200, budget=120 if tier == 'quick' else 700)

# ---------------------------------------------------------------- C16
SIZES = [1, 2, 3, 4, 5, 8, 31, 32, 33, 40, 48, 63, 64, 65, 70, 96, 127, 128, 129, 130, 192, 200]
def bits_programs(rng, n):
    o = []
    for i in range(1, n + 1):
        size = rng.choice(SIZES[:6]) if rng.random() < 0.4 else rng.choice(SIZES)
        pool = rng.random() < 0.5
        hot = sorted(set([0, size - 1, size // 2, 31 % size, 32 % size, 33 % size, 63 % size, 64 % size, rng.randrange(size), rng.randrange(size)]))
        hot = rng.sample(hot, min(len(hot), rng.randint(1, 6)))
        b = lambda: rng.choice(hot)
        th = []
        T = rng.randint(1, 4)
        for t in range(T):
            ops = []
            if pool and rng.random() < 0.6: ops.append(('be', rng.choice(hot + [rng.randrange(size)])))
            if rng.random() < 0.3:
                # all bits in a state
                if size <= 8:
                    for x in range(size): ops.append(('set', x, 1))
            for _ in range(rng.randint(1, 7 if T < 3 else 4)):
                x = rng.random()
                if x < 0.35: ops.append(('set', b(), 1))
                elif x < 0.5: ops.append(('set', b(), 0))
                elif x < 0.58: ops.append(('get', b()))
                elif x < 0.78 or not pool:
                    m = rng.choice((0, 0, 1, 1, 2, 3))
                    ops.append(('probe', int(rng.random() < 0.8 or size > 70), rng.choice(hot + [rng.randrange(size)]), rng.randint(0, 1), m, rng.randrange(m) if m else 0))
                else: ops.append(('claim',))
            th.append(ops)
        o.append(script(i, ['pool' if pool else 'field', size], th))
    return o
def bits(pid, tier, seed, rep):
    rng = random.Random('bits-%d-%s' % (seed, tier))
    n, k = (3000, 8) if tier == 'quick' else (15000, 24)
    campaign(rep, pid, tier, seed, 'bits', 'BitsTrace.tla', bits_programs(rng, n), k, est=150, budget=100 if tier == 'quick' else 700)

# ---------------------------------------------------------------- C17
def arena_programs(rng, n):
    o = []
    for i in range(1, n + 1):
        chunk = rng.choice((4096, 4096, 8192, 16384, 65536))
        cap = chunk - 1200
        def size():
            x = rng.random()
            if x < 0.25: return rng.choice((1, 7, 8, 16, 17, 24, 33, 64, 100))
            if x < 0.6: return rng.choice((128, 200, 256, 500, 512, 600, 1000, 1024))
            if x < 0.8: return rng.randint(cap // 4, cap // 2)
            if x < 0.93: return rng.choice((chunk // 2, chunk // 2 - 600, chunk // 2 + 1, cap, chunk - 500, chunk - 700, chunk - 560, chunk))
            return rng.choice((chunk + 1, 3 * chunk, 0))
        T = rng.choice((1, 1, 2, 2, 3, 4)); nid = 0; th = []; allid = []
        for t in range(T):
            ops = [('limit', rng.randint(0, 3))] if rng.random() < 0.08 else []; own = []
            for _ in range(rng.randint(2, 14 if T == 1 else 7)):
                x = rng.random()
                if x < 0.55 or not allid:
                    nid += 1; own.append(nid); allid.append(nid); ops.append(('alloc', nid, size()))
                elif x < 0.85 and own:
                    k = own.pop(rng.randrange(len(own))); ops.append(('free', k))
                elif x < 0.93: ops.append(('free', rng.choice(allid)))
                else:
                    ops.append(('churn', 200 + t, size(), rng.randint(2, 24 if T == 1 else 6)))
            th.append(ops)
        o.append(script(i, [chunk], th))
    return o
def arena(pid, tier, seed, rep):
    rng = random.Random('arena-%d-%s' % (seed, tier))
    n, k = (2400, 8) if tier == 'quick' else (12000, 24)
    campaign(rep, pid, tier, seed, 'arena', 'ArenaTrace.tla', arena_programs(rng, n), k, est=800, budget=100 if tier == 'quick' else 700)

# ---------------------------------------------------------------- C18
def tags_programs(rng, n):
    o = []
    for i in range(1, n + 1):
        pool = rng.sample(range(64), rng.randint(2, 5))
        if rng.random() < 0.3: pool[0] = rng.choice((0, 31, 32, 63))
        def mask(p): return sum(1 << b for b in set(pool) if rng.random() < p)
        unit = rng.random() < 0.5
        ns = rng.randint(1, 4) if unit else rng.randint(1, 3)
        subs = []
        for k in range(ns):
            kind = (1 if rng.random() < 0.6 else 2) if unit or k else rng.choice((0, 0, 1, 2))
            subs.append((kind, mask(rng.choice((0.2, 0.5, 0.9)))))
        rng.shuffle(subs)
        def tmask():
            x = rng.random()
            if x < 0.2: return 0
            if x < 0.75:
                m = rng.choice(subs)[1]; return sum(1 << b for b in range(64) if m >> b & 1 and rng.random() < 0.6)
            return mask(0.4)
        ops = []
        if unit:
            nt = rng.randint(1, 5)
            for t in range(1, nt + 1): ops.append(('task', t, tmask()))
            for _ in range(rng.randint(3, 14)):
                x = rng.random(); t = rng.randint(1, nt)
                if x < 0.25: ops.append(('em', t))
                elif x < 0.4: ops.append(('act', t))
                elif x < 0.55: ops.append(('dep', t, rng.randint(1, nt)))
                elif x < 0.75: ops.append(('steal',))
                elif x < 0.85: ops.append(('sleep', rng.randint(1, ns), rng.randint(0, 2)))
                elif x < 0.95: ops.append(('wake', rng.randint(0, 2)))
                else: ops.append(('wakeall',))
        else:
            nt = rng.randint(1, 6); par = {}
            for t in range(1, nt + 1):
                p = rng.choice([0, 0, 0] + [q for q in par if par[q][0] == 0])
                r = rng.choice((0, 1, 1, 2)) if p == 0 else rng.choice((0, par[p][1]))
                par[t] = (p, r)
                ops.append(('task', t, tmask(), r, p))
                if rng.random() < 0.1: ops.append(('barrier',))
        o.append(script(i, ['unit' if unit else 'rt', rng.randint(1, 3)] + ['%d:%d' % s for s in subs], [ops]))
    return o
def tags(pid, tier, seed, rep):
    rng = random.Random('tags-%d-%s' % (seed, tier))
    n, k = (1200, 5) if tier == 'quick' else (6000, 20)
    campaign(rep, pid, tier, seed, 'tags', 'TagsTrace.tla', tags_programs(rng, n), k, est=1500, budget=120 if tier == 'quick' else 700)

# ---------------------------------------------------------------- C20
def mpi_programs(rng, n):
    o = []
    for i in range(1, n + 1):
        nt = rng.choice((1, 2, 3, 3, 4, 5, 6)); r = 0; reqs = []; th = [[]]
        for t in range(1, nt + 1):
            q = []
            for _ in range(rng.choice((1, 1, 1, 2, 3))):
                if rng.random() < 0.2: q.append(-rng.randint(1, 4))
                r += 1; q.append(r); reqs.append(r)
            th[0].append(('task', t) + tuple(q))
            if rng.random() < 0.15: th[0].append(rng.choice((('poll',), ('pause', rng.randint(1, 5)))))
        order = reqs[:]
        x = rng.random()
        if x < 0.5: rng.shuffle(order)
        elif x < 0.65: order.reverse()
        C = rng.choice((1, 1, 2))
        cth = [[] for _ in range(C)]
        bunch = rng.random() < 0.5
        for q in order:
            k = rng.randrange(C)
            if not bunch and rng.random() < 0.5: cth[k].append(('pause', rng.randint(1, 30)))
            elif bunch and rng.random() < 0.2: cth[k].append(('pause', rng.randint(10, 60)))
            cth[k].append(('complete', q))
        th += cth
        if rng.random() < 0.4: th.append([('poll',) if rng.random() < 0.7 else ('pause', rng.randint(1, 10)) for _ in range(rng.randint(1, 8))])
        o.append(script(i, [rng.randint(1, 4), rng.choice((1, 2, 3, 20, 20)), rng.randint(0, 10**6), int(rng.random() < 0.6)], th))
    return o
def mpi(pid, tier, seed, rep):
    rng = random.Random('mpi-%d-%s' % (seed, tier))
    n, k = (900, 6) if tier == 'quick' else (5000, 20)
    campaign(rep, pid, tier, seed, 'mpi', 'MpiTrace.tla', mpi_programs(rng, n), k, est=2500, budget=120 if tier == 'quick' else 700)

# ---------------------------------------------------------------- C11
MR = 9
IOT, AT = 'i', 'a'
def AND(*x): return x
SHAPES = [IOT, AT, (AT,), (AT,) * 2, (AT,) * 3, (AT,) * 2, (IOT,) * 2, (IOT,) * 3, (IOT, AT), (AT, IOT), (IOT, (AT,)), (IOT, (AT,) * 2), (IOT, (AT,) * 3),
          ((IOT, AT), (AT, IOT)), ((IOT, AT),) * 2, ((IOT, (AT,)),) * 2, (IOT, IOT), (AT,) * 3, (IOT,), (IOT, AT)]
def rnd_area(rng):
    x = rng.random()
    if x < 0.15: return [0, MR]
    if x < 0.3: return [0, rng.randint(1, MR)]
    if x < 0.4: return [rng.randint(0, MR - 1), MR]
    lo = rng.randint(0, MR - 1); return [lo, rng.randint(lo + 1, min(MR, lo + rng.choice((1, 2, 9))))]
def near_area(rng, a):
    """an area related to a: equal, touching, nested, overlapping by one"""
    lo, hi = a
    c = [(lo, hi)] + [(x, y) for x, y in ((hi, min(MR, hi + 1)), (max(0, lo - 1), lo), (lo, hi - 1), (lo + 1, hi), (lo, min(MR, hi + 1)), (max(0, lo - 1), hi), (hi - 1, min(MR, hi + 1)), (0, MR), (0, hi), (lo, MR)) if x < y]
    return list(rng.choice(c))
def rnd_vals(rng, shape, base=None):
    """values of an access of the shape; base: values of an access it shall be similar to"""
    o = []; pos = [0]
    def go(s):
        if s == IOT:
            b = base[pos[0]] if base else None; pos[0] += 1
            o.append(b if base and rng.random() < 0.5 else rng.choice((0, 1, 1, 2, 3)))
        elif s == AT:
            b = base[pos[0]:pos[0] + 2] if base else None; pos[0] += 2
            o.extend(near_area(rng, b) if base and rng.random() < 0.7 else rnd_area(rng))
        else:
            for x in s: go(x)
    go(shape); return o
def algebra_programs(rng, n):
    o = []
    RS = [IOT] * 3 + [SHAPES[10]] * 2 + [SHAPES[11], SHAPES[13]]
    for i in range(1, n + 1):
        ops = []
        if i % 3:
            for _ in range(40):
                t = rng.randrange(len(SHAPES)); a = rnd_vals(rng, SHAPES[t]); b = rnd_vals(rng, SHAPES[t], a)
                ops.append(('q', t, int(rng.random() < 0.7), int(rng.random() < 0.08), int(rng.random() < 0.08)) + tuple(a) + tuple(b))
        else:
            big = rng.random() < 0.3
            for _ in range(3):
                have = {0: set(), 1: set(), 2: set()}; removed = set(); last = {}
                us = [x + 3 * _ for x in range(3)]; have = {u: [] for u in us}
                for _2 in range(rng.randint(4, 12) if not big else rng.randint(20, 60)):
                    u = rng.choice(us); x = rng.random()
                    if x < 0.6:
                        r = rng.randrange(7); v = tuple(rnd_vals(rng, RS[r], last.get(r))); last[r] = v
                        if (r, v) in have[u]: continue
                        have[u].append((r, v)); ops.append(('add', u, r) + v)
                    elif x < 0.68 and have[u]:
                        r, v = have[u].pop(rng.randrange(len(have[u]))); removed.add(u); ops.append(('rm', u, r) + v)
                    elif x < 0.72:
                        w = rng.choice(us)
                        if w != u: have[w] = have[u][:]; removed.discard(w); removed |= {w} if u in removed else set(); ops.append(('copy', u, w))
                    elif x < 0.92: ops.append(('cmp', u, rng.choice(us)))
                    elif x < 0.97: ops.append(('sync', u, rng.randrange(7)))
                    elif u not in removed: ops.append(('uniq', u))
                for u in us:
                    for w in us: ops.append(('cmp', u, w))
        o.append(script(i, [1], [ops]))
    return o
def algebra(pid, tier, seed, rep):
    rng = random.Random('algebra-%d-%s' % (seed, tier))
    n = 900 if tier == 'quick' else 9000
    for k in (1, 2, 3, 4): run_model(rep, 'MC_AccessTree.tla', 'MC_AccessTree%d.cfg' % k)
    campaign(rep, pid, tier, seed, 'algebra', 'AlgebraTrace.tla', algebra_programs(rng, n), 1, est=1500, budget=100 if tier == 'quick' else 600)
    if not rep.violations: campaign(rep, pid, tier, seed + 1, 'algebra', 'AlgebraTrace.tla', algebra_programs(rng, n // 3), 1, cfg='default', est=1500, budget=100 if tier == 'quick' else 600)

# ---------------------------------------------------------------- C12
INFI = 1000000
def field_programs(rng, n):
    o = []
    for i in range(1, n + 1):
        kind = rng.choice(('vec', 'arr', 'mat', 'mat'))
        nx, ny = {'vec': (rng.randint(1, 7), 1), 'arr': (6, 1), 'mat': (4, 3)}[kind]
        d2 = kind == 'mat'
        G = {0: (True, (0, INFI, 0, INFI if d2 else 1))}; ops = []; nid = 0
        whole = lambda a: a[1] > 20 or a[3] > 20
        def coord(lo, hi, ext):
            h = min(hi, ext + 1)
            c = [lo, lo - 1, lo + 1, h - 1, h, h + 1, rng.randint(0, ext + 1)]
            if rng.random() < 0.12: c = [INFI, 500000 + rng.randint(0, 1), 600000, 999999]
            x = rng.choice(c); return max(0, x)
        for _ in range(rng.randint(6, 26)):
            k = rng.choice(list(G)); w, a = G[k]
            if rng.random() < 0.5: k = max(G); w, a = G[k]
            x = rng.random()
            if x < 0.45:
                nid += 1; how = rng.choice((0, 0, 0, 1, 1, 2, 3, 4))
                def rg_(lo, hi, ext):
                    if rng.random() < 0.25: return lo, hi
                    b, e = coord(lo, hi, ext), coord(lo, hi, ext)
                    if b > e and rng.random() < 0.9: b, e = e, b
                    return b, e
                b0, e0 = rg_(a[0], a[1], nx); b1, e1 = rg_(a[2], a[3], ny)
                if rng.random() < 0.6 and not a[0] == a[1]:
                    h = min(a[1], nx + 1)
                    if h > a[0]: b0 = rng.randint(a[0], h - 1); e0 = rng.randint(b0 + 1, h)
                    if d2 and min(a[3], ny + 1) > a[2]: b1 = rng.randint(a[2], min(a[3], ny + 1) - 1); e1 = rng.randint(b1 + 1, min(a[3], ny + 1))
                ops.append(('der', nid, k, how, b0, e0, b1, e1))
                if how == 3 and not w: continue
                na = a
                if how == 0: na = (b0, e0) + ((b1, e1) if d2 else (0, 1))
                if how == 1: na = (b0, b0 + 1) + ((b1, b1 + 1) if d2 else (0, 1))
                if how < 2 and not (a[0] <= na[0] and na[1] <= a[1] and a[2] <= na[2] and na[3] <= a[3] and na[0] < na[1] and na[2] < na[3]): continue
                if how == 1 and (b0 >= INFI or b1 >= INFI): continue
                G[nid] = (w and how != 2, na)
            elif x < 0.75:
                px, py = coord(a[0], a[1], nx), coord(a[2], a[3], ny) if d2 else 0
                if rng.random() < 0.5: px = rng.randint(a[0], max(a[0], min(a[1], nx) - 1)); py = rng.randint(a[2], max(a[2], min(a[3], ny) - 1)) if d2 else 0
                inarea = a[0] <= px < a[1] and a[2] <= py < a[3]
                if inarea and (px >= nx or py >= ny): continue   # inside of the area but not of the container
                ops.append(('get', k, px, py) if rng.random() < 0.5 else ('set', k, px, py, 100 + len(ops)))
            else: ops.append(('decl', k))
        o.append(script(i, [kind, nx, rng.randint(0, 1)], [ops]))
    return o
def fields(pid, tier, seed, rep):
    rng = random.Random('fields-%d-%s' % (seed, tier))
    n = 3000 if tier == 'quick' else 30000
    campaign(rep, pid, tier, seed, 'fields', 'FieldTrace.tla', field_programs(rng, n), 1, est=1500, budget=100 if tier == 'quick' else 600)

# ---------------------------------------------------------------- C13 C22
def covers(b, a): return b[0] == a[0] and (b[1] == 0 or b[1] == a[1]) and b[2] <= a[2] and a[3] <= b[3] and b[4] <= a[4] and a[5] <= b[5]
def meets(b, a): return b[0] == a[0] and b[2] < a[3] and a[2] < b[3] and b[4] < a[5] and a[4] < b[5]
def props_programs(rng, n, bad=0.5, depth=4, tasks=9, copies=0.3):
    o = []
    for pid in range(1, n + 1):
        kind, canon, owner = {}, {}, {}
        th = {0: []}; dep = {0: 0}; decl = {0: []}; vis = {0: []}; par = {}
        nr = [0]; illegal = rng.random() < bad
        def mk(t):
            nr[0] += 1; r = nr[0]
            kind[r] = rng.choice((0, 0, 1, 1, 2)); canon[r] = r; owner[r] = t
            th[t].append(('mk', r, kind[r])); vis[t].append(r)
            if rng.random() < copies: cp(t, r)
        def cp(t, q):
            if nr[0] > 30: return
            nr[0] += 1; r = nr[0]
            kind[r] = kind[q]; canon[r] = canon[q]; owner[r] = owner[canon[q]]
            th[t].append(('cp', r, q)); vis[t].append(r)
        W = lambda r: (0, 1, 0, 1) if kind[r] == 0 else (0, INFI, 0, INFI if kind[r] == 2 else 1)
        def area(r, lim=None):
            l0, h0, l1, h1 = lim or W(r)
            if kind[r] == 0: return (0, 1, 0, 1)
            if rng.random() < 0.3: return (l0, h0, l1, h1)
            a = rng.randint(l0, min(h0, 4) - 1) if l0 < min(h0, 4) else l0; b = rng.randint(a + 1, max(a + 1, min(h0, 4)))
            if kind[r] != 2: return (a, b, 0, 1)
            c = rng.randint(l1, min(h1, 3) - 1) if l1 < min(h1, 3) else l1; d = rng.randint(c + 1, max(c + 1, min(h1, 3)))
            return (a, b, c, d)
        mode = lambda: rng.choice((0, 0, 1, 1, 1, 2, 3))
        def anyacc(r): return (r, mode()) + area(r)
        def alias(t, c):
            """a name for the resource c that the body of t can use"""
            return rng.choice([r for r in vis[t] if canon[r] == c])
        def subacc(t, b):
            m = mode() if b[1] == 0 else b[1]
            return (alias(t, b[0]), m) + area(b[0], b[2:])
        C = lambda a: (canon[a[0]],) + a[1:]
        legal = lambda t, a: t == 0 or owner[canon[a[0]]] == t or any(covers(b, C(a)) for b in decl[t])
        # no two readings: at most one access of the parent meets it, and does not cover it
        clear = lambda t, a: t > 0 and owner[canon[a[0]]] != t and not legal(t, a) and sum(1 for b in decl[t] if meets(b, C(a))) <= 1
        def badacc(t):
            c = []
            for _ in range(30):
                x = rng.random()
                if decl[t] and x < 0.6:
                    b = rng.choice(decl[t]); r = alias(t, b[0])
                    if x < 0.25: a = (r, rng.choice((0, 1, 2, 3))) + b[2:]
                    elif x < 0.4 and kind[b[0]]: a = (r, b[1]) + ((b[2], b[3] + 1) if rng.random() < 0.5 else (max(0, b[2] - 1), b[3])) + b[4:]
                    elif kind[b[0]] == 2: a = (r, b[1]) + b[2:4] + ((b[4], b[5] + 1) if rng.random() < 0.5 else (max(0, b[4] - 1), b[5]))
                    else: a = (r, b[1]) + W(r)
                    if a[3] > INFI or a[5] > INFI or (a[3] > 100000) != (a[5] > 100000 or kind[b[0]] == 1): continue
                else: a = anyacc(rng.choice(vis[t]))
                if clear(t, a): c.append(a)
            return rng.choice(c) if c else None
        def forms(accs):
            """how the accesses are declared: (pattern, form of each)"""
            whole = lambda a: a[3] > 100000 or kind[a[0]] == 0
            def types(a):
                k, m = kind[a[0]], a[1]; t = [6, 16, 17]
                if m < 2: t += [(1 - m, 10 if m else 11) if 0 else x for x in {(0, 0): (1, 11), (0, 1): (0, 10), (1, 0): (3, 13), (1, 1): (2, 12), (2, 0): (5, 15), (2, 1): (4, 14)}[(k, m)]] * 2
                if m == 0 and whole(a): t += [7 + k] * 2
                return t
            few = lambda a: [t for t in types(a) if t in (0, 1, 3, 6, 12)]
            f = [rng.choice((0, 0, 1)) for _ in accs]
            pat = rng.choice((0, 1, 2, 3, 4, 6, 7, 8, 5))
            idx = [k for k, a in enumerate(accs)]
            if pat in (1, 6) and idx:
                k = rng.choice(idx); ts = [t for t in types(accs[k]) if pat == 1 or t not in (7, 8, 9)]; f[k] = 2 + rng.choice(ts); return pat, f
            if pat in (7, 8):
                c = [k for k in idx if accs[k][1] == 0 and whole(accs[k])]
                if c: k = rng.choice(c); f[k] = 2 + 1; return pat, f
            if pat in (2, 4) and len(idx) > 1:
                i, j = sorted(rng.sample(idx, 2)); a, b = few(accs[i]), few(accs[j])
                if pat == 2: f[i], f[j] = 2 + rng.choice(a), 2 + rng.choice(b); return pat, f
                c = set(a) & set(b)
                if c: f[i] = f[j] = 2 + rng.choice(sorted(c)); return pat, f
            if pat == 3 and idx: k = rng.choice(idx); f[k] = 2 + rng.choice(few(accs[k])); return pat, f
            return rng.choice((0, 5)), f
        for _ in range(rng.randint(1, 3)): mk(0)
        nt = rng.randint(1, tasks)
        for t in range(1, nt + 1):
            if t == 1 or rng.random() < 0.3: p = 0
            else:
                p = rng.choice([q for q in dep if dep[q] < depth and (q or rng.random() < 0.5)] or [0])
            dep[t] = dep[p] + 1; par[t] = p; th[t] = []; vis[t] = vis[p][:]
            if p and rng.random() < 0.25: mk(p)
            if nr[0] < 28 and rng.random() < 0.1 and vis[p]: cp(p, rng.choice(vis[p]))
            if p and decl[p] and rng.random() < 0.35:
                new = list(decl[p]); x = new.pop(rng.randrange(len(new)))
                if rng.random() < 0.6:
                    y = (x[0], x[1] or mode()) + area(x[0], x[2:])
                    if y not in new: new.append(y)
                if not any(q for q in par if par[q] == p):
                    th[p].append(('dem', len(new)) + tuple(v for a in new for v in a)); decl[p] = new
            vis[t] = vis[p][:]
            k = rng.choice((0, 1, 1, 2, 2, 3, 3, 4, 5, 9))
            accs = []
            for _ in range(k):
                own = [r for r in vis[p] if owner[canon[r]] == p]
                if p == 0: a = anyacc(rng.choice(vis[0]))
                elif own and (not decl[p] or rng.random() < 0.4): a = anyacc(rng.choice(own))
                elif decl[p]: a = subacc(p, rng.choice(decl[p]))
                else: continue
                assert legal(p, a)
                if C(a) not in [C(b) for b in accs]: accs.append(a)
            isbad = False
            if p and illegal and rng.random() < 0.5:
                a = badacc(p)
                if a: accs.insert(rng.randint(0, len(accs)), a); isbad = True
            pat, f = forms(accs)
            tags = 0
            if rng.random() < 0.5: tags = sum(1 << b for b in rng.sample(range(64), rng.randint(1, 4)))
            th[p].append(('sub', t, rng.choice((0, 0, 1)) + 2 * rng.randint(0, 7) + 16 * rng.choice((0, 0, 0, 1, 2)) + (64 if not isbad and rng.random() < 0.3 else 0), tags, pat, len(accs)) + tuple(v for a, x in zip(accs, f) for v in a + (x,)))
            decl[t] = [C(a) for a in accs]
            vis[t] = vis[p][:]
            if p == 0 and rng.random() < 0.1: th[0].append(('barrier',))
        for t in th:
            for _ in range(rng.choice((0, 0, 1, 2))):
                if len(vis[t]) > 1: th[t].append(('same',) + tuple(rng.sample(vis[t], 2)))
        o.append(script(pid, [rng.randint(1, 3)], [th[t] if t in th else [] for t in range(max(th) + 1)]))
    return o
def props(pid, tier, seed, rep):
    rng = random.Random('props-%s-%d-%s' % (pid, seed, tier))
    n = 1200 if tier == 'quick' else 9000
    k = 3 if tier == 'quick' else 8
    keep = (lambda r: r[:6] in ('rights', 'run.Cr', 'run.St', 'run.Ha')) if pid == 'C13' else (lambda r: r[:4] in ('decl', 'run.'))
    kw = dict(bad=0.75, copies=0.15) if pid == 'C13' else dict(bad=0, copies=0.4, depth=3)
    campaign(rep, pid, tier, seed, 'props', 'PropsTrace.tla', props_programs(rng, n, **kw), k, est=4000, budget=100 if tier == 'quick' else 600, rulefilter=keep)
    if not rep.violations:
        campaign(rep, pid, tier, seed + 1, 'props', 'PropsTrace.tla', props_programs(rng, n // 3, **kw), 1, cfg='default', est=4000, budget=100 if tier == 'quick' else 600, rulefilter=keep)
