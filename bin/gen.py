"""Random task programs for drv/tasks.cpp. Programs are data: the TLA+ specification decides what every execution
of them may look like; nothing here predicts an outcome."""
import random

PUPPET, INT, ARGS, CTX, DROP, LIST, STACK, BIG = 1, 2, 4, 8, 16, 32, 64, 128
BASE = dict(max_tasks=8, min_tasks=2, max_res=3, nest=0.3, depth=3, workers=(1, 4), pus=None, kinds=('io', 'io', 'vec', 'arr2'),
            gate=0.25, event=0.25, yieldp=0.2, get=0.2, demote=0.0, ctx=0.1, ready=0.1, barrier=0.1, reinit=0.05, main_yield=0.05,
            drop=0.2, big=0.05, lst=0.15, args=0.3, sched=('default',), modes=(0, 0, 1, 1, 1, 2, 3), maxacc=3, local=0.1, dup=0.15,
            finonly=0.2, hot=0.6, batches=4, chain=0.0)

def split_area(rng, lo, hi):
    """a non-empty sub-range of [lo,hi)"""
    a = rng.randrange(lo, hi); b = rng.randrange(a + 1, hi + 1)
    return a, b

class Prog:
    pass

def gen(rng, pid, **kw):
    f = dict(BASE); f.update(kw)
    W = rng.randint(*f['workers'])
    pus = f['pus'] if f['pus'] else rng.choice((W, W, 1, 8))
    sched = rng.choice(f['sched'])
    nt = rng.randint(f['min_tasks'], f['max_tasks'])
    nr = rng.randint(1, f['max_res'])
    res = {}
    for r in range(1, nr + 1):
        k = rng.choice(f['kinds'])
        res[r] = [k, rng.randint(1, 4) if k == 'vec' else 0, 0]
    ext = lambda r: {'io': (1, 1), 'vec': (res[r][1], 1), 'arr2': (3, 3)}[res[r][0]]
    par, dep = {}, {0: 0}
    flags = {t: 0 for t in range(nt + 1)}
    for t in range(1, nt + 1):
        c = [p for p in range(1, t) if dep[p] < f['depth']]
        par[t] = (c[-1] if rng.random() < f['chain'] else rng.choice(c)) if c and rng.random() < f['nest'] else 0
        dep[t] = dep[par[t]] + 1
    kids = {t: [k for k in par if par[k] == t] for t in range(nt + 1)}
    acc = {}
    hot = rng.randint(1, nr)

    def rnd_acc(r):
        e = ext(r); m = rng.choice(f['modes'])
        if res[r][0] == 'io': return (r, m, 0, 1, 0, 1)
        if rng.random() < 0.35: return (r, m, 0, 1000000, 0, 1000000 if res[r][0] == 'arr2' else 1)
        a = split_area(rng, 0, e[0]); b = split_area(rng, 0, e[1]) if res[r][0] == 'arr2' else (0, 1)
        return (r, m, a[0], a[1], b[0], b[1])

    def sub_acc(a):
        r, m, l0, h0, l1, h1 = a
        m2 = rng.choice(f['modes']) if m == 0 else m
        if rng.random() < 0.3 or res[r][0] == 'io': return (r, m2, l0, h0, l1, h1)
        e = ext(r)
        if l0 < min(h0, e[0]):
            x = split_area(rng, l0, min(h0, e[0]))
        else:
            x = (l0, h0)
        y = split_area(rng, l1, min(h1, e[1])) if res[r][0] == 'arr2' else (l1, h1)
        return (r, m2, x[0], x[1], y[0], y[1])

    for t in range(1, nt + 1):
        if par[t] == 0:
            n = rng.choice([0] + list(range(1, f['maxacc'] + 1)) * 2)
            acc[t] = [rnd_acc(hot if rng.random() < f['hot'] else rng.randint(1, nr)) for _ in range(n)]
        else:
            src = acc[par[t]]
            loc = [r for r in res if res[r][2] == par[t]]
            if not loc and rng.random() < f['local']:
                r = len(res) + 1
                k = rng.choice(f['kinds'])
                res[r] = [k, rng.randint(1, 4) if k == 'vec' else 0, par[t]]
                loc = [r]
            n = rng.choice((0, 1, 1, 2, 2, 3))
            acc[t] = []
            for _ in range(n):
                if loc and (not src or rng.random() < 0.4): acc[t].append(rnd_acc(rng.choice(loc)))
                elif src: acc[t].append(sub_acc(rng.choice(src)))
        if acc[t] and rng.random() < f['dup']: acc[t].append(rng.choice(acc[t]))
        if rng.random() < 0.4: flags[t] |= INT
        if rng.random() < f['args']: flags[t] |= ARGS
        if rng.random() < f['ctx'] * 3: flags[t] |= CTX
        if rng.random() < f['drop']: flags[t] |= DROP
        if rng.random() < f['lst']: flags[t] |= LIST
        if rng.random() < f['big']: flags[t] |= BIG
        if rng.random() < 0.1: flags[t] |= STACK
    tags = {t: (rng.choice((0, 1, 2, 4, 6)) if sched == 'tags' else 0) for t in range(1, nt + 1)}
    cmds = []
    nev = [1]
    evs = []
    B = f['batches']
    nb = lambda b: b if rng.random() > f['gate'] else rng.randint(b + 1, b + 2) if b < B else b

    def ev():
        e = nev[0]; nev[0] += 1; evs.append(e); return e
    # tasks
    for t in range(1, nt + 1):
        seq = []
        cur = list(acc[t])
        done = []
        own_local = [r for r in res if res[r][2] == t]
        for r in own_local: seq.append(('mkres', r))
        todo = [('submit', k) for k in kids[t]]
        while todo or rng.random() < 0.5:
            if len(seq) > 12:
                seq += todo
                break
            x = rng.random()
            if x < f['event']: seq.append(('mkev', ev()))
            elif x < f['event'] + f['yieldp']: seq.append(('yield', ev())); flags[t] |= PUPPET
            elif x < f['event'] + f['yieldp'] + f['demote'] and cur:
                new = list(cur)
                for _ in range(rng.randint(1, 2)):
                    if not new: break
                    i = rng.randrange(len(new)); a = new.pop(i)
                    y = rng.random()
                    if y < 0.55:
                        s = sub_acc(a)
                        new.insert(i, s)
                    elif y < 0.65:
                        # an illegal one: widen
                        new.insert(i, (a[0], 0) + a[2:] if a[1] != 0 else (a[0], 0, 0, 1000000 if res[a[0]][0] != 'io' else 1, 0, 1000000 if res[a[0]][0] == 'arr2' else 1))
                cov = lambda A, b: any(a[0] == b[0] and (a[1] == 0 or a[1] == b[1]) and a[2] <= b[2] and b[3] <= a[3] and a[4] <= b[4] and b[5] <= a[5] for a in A)
                legal = all(cov(cur, b) for b in new)
                need = [a for k in kids[t] for a in acc[k] if res[a[0]][2] != t]
                if new != cur and (not legal or all(cov(new, b) for b in need)):
                    seq.append(('demote', [v for a in new for v in a]))
                    if legal: cur = new
            elif todo:
                seq.append(todo.pop(0)); done.append(seq[-1][1])
                if rng.random() < f['get'] and not flags[done[-1]] & DROP:
                    seq.append(('get', done[-1])); flags[t] |= PUPPET
            elif x < 0.6 and done:
                k = rng.choice(done)
                if rng.random() < 0.5: seq.append(('get', k)); flags[t] |= PUPPET
                else: seq.append(('drop', k))
            elif rng.random() < f['ctx']: seq.append(('ctx',))
            elif evs and rng.random() < 0.3: seq.append(('reach', rng.choice(evs)))
            elif evs and rng.random() < 0.15: seq.append(('yieldon', rng.choice(evs))); flags[t] |= PUPPET
            elif par[t] == 0 and rng.random() < f['get'] * 0.3:
                e = [u for u in range(1, t) if par[u] == 0]
                if e: seq.append(('get', rng.choice(e))); flags[t] |= PUPPET
        if rng.random() < 0.3: seq.append(('end',))
        b = 0
        for s in seq:
            b2 = nb(b)
            if b2 > b: flags[t] |= PUPPET
            b = b2
            cmds.append((t, b) + s)
    # main
    b = 0
    roots = [t for t in range(1, nt + 1) if par[t] == 0]
    sub = []
    for t in roots:
        cmds.append((0, b, 'submit', t)); sub.append(t)
        while rng.random() < 0.45:
            x = rng.random()
            if x < f['ready'] * 2: cmds.append((0, b, 'ready', rng.choice(sub)))
            elif x < 0.2 + f['get']: cmds.append((0, b, 'get', rng.choice(sub)))
            elif x < 0.2 + f['get'] + 0.1: cmds.append((0, b, 'drop', rng.choice(sub)))
            elif rng.random() < f['ctx']: cmds.append((0, b, 'ctx'))
            elif rng.random() < f['barrier']: cmds.append((0, b, 'barrier'))
            elif rng.random() < f['reinit']: cmds.append((0, b, 'reinit', rng.randint(*f['workers'])))
            elif evs and rng.random() < f['main_yield']: cmds.append((0, b, 'yieldon', rng.choice(evs)))
            elif evs and rng.random() < 0.2: cmds.append((0, b, 'reach', rng.choice(evs)))
            b = nb(b)
    # reached by the controller
    for e in evs:
        if rng.random() < 0.6: cmds.append((-1, rng.randint(1, B + 1), 'reach', e))
    ctl = sorted([c for c in cmds if c[0] == -1], key=lambda c: c[1])
    cmds = [c for c in cmds if c[0] != -1] + ctl
    return fmt(pid, W, pus, sched, res, nt, flags, tags, acc, cmds, int(rng.random() < f['finonly']))

def from_family(rng, pid, rec, workers=(1, 4), finonly=0.2, sched=('default',), gate=0.25, reinit=0):
    """a program of a family enumerated by spec/Programs.tla. What the family leaves open (number of workers, when events
    are reached and which batch of the notifier a command waits for, how arguments are passed) is drawn at random"""
    n = len(rec['par'])
    W = rng.randint(*workers)
    names = {1: 1, 2: 2, 9: 3}
    res = {1: ['io', 0, 0], 2: ['io', 0, 0], 3: ['vec', 3, 0]}
    acc = {t: [tuple([names[a[0]]] + a[1:]) for a in rec['acc'][t - 1]] for t in range(1, n + 1)}
    flags = {t: (ARGS if rng.random() < 0.3 else 0) | (CTX if rng.random() < 0.3 else 0) | (INT if rng.random() < 0.4 else 0) for t in range(1, n + 1)}
    cmds, evs = [], []
    def emit(t, body):
        b = 0
        for c in body:
            if c[0] in ('yield', 'mkev'): evs.append(c[1])
            if t and c[0] in ('yield', 'get'): flags[t] |= PUPPET
            if rng.random() < gate:
                b += 1
                if t: flags[t] |= PUPPET
            if c[0] == 'demote': c = ['demote', [v for a in c[1] for v in [names[a[0]]] + a[1:]]]
            cmds.append((t, b) + tuple(c))
    for t in range(1, n + 1): emit(t, rec['body'][t - 1])
    emit(0, rec['main'])
    ids = {e: i + 1 for i, e in enumerate(sorted(evs))}
    cmds = [c[:3] + (ids[c[3]],) + c[4:] if c[2] in ('yield', 'mkev') else c for c in cmds]
    ctl = sorted([(-1, rng.randint(1, n + 2), 'reach', e) for e in ids.values() if rng.random() < 0.8], key=lambda c: c[1])
    return fmt(pid, W, rng.choice((W, 1, 8)), rng.choice(sched), res, n, flags, {t: 0 for t in flags}, acc, cmds + ctl, int(rng.random() < finonly))

def fmt(pid, W, pus, sched, res, nt, flags, tags, acc, cmds, finonly=0):
    o = ['P %d %d %d %s %d %d %d' % (pid, W, pus, sched, len(res), nt, finonly)]
    for r in sorted(res): o.append('R %d %s %d %d' % (r, res[r][0], res[r][1], res[r][2]))
    for t in range(1, nt + 1):
        o.append('T %d %d %d %d %s' % (t, flags[t], tags.get(t, 0), len(acc[t]), ' '.join(' '.join(map(str, a)) for a in acc[t])))
    for c in cmds:
        args = []
        for a in c[3:]:
            args += a if isinstance(a, (list, tuple)) else [a]
        o.append('A %d %d %s %s' % (c[0], c[1], c[2], ' '.join(map(str, args))))
    return '\n'.join(o)

def sched_lines(rng, n, nt, first=1, spurious=0.15):
    o = []
    for k in range(n):
        seed = rng.getrandbits(48)
        st = 0 if rng.random() < 0.65 else 1
        ps = rng.choice((1, 2, 3, 5, 8, 15, 30, 60))
        pl = rng.choice((0, 0, 0, 4, 12, 40))
        nc = rng.randint(1, 6)
        est = 1500 + 500 * nt
        sp = rng.choice((20, 100)) if rng.random() < spurious else 0
        o.append('S %d %d %d %d %d %d %d %d' % (first + k, seed, st, ps, nc, est, pl, sp))
    return o

if __name__ == '__main__':
    import sys
    rng = random.Random(int(sys.argv[1])); n = int(sys.argv[2]); k = int(sys.argv[3])
    kw = eval('dict(%s)' % sys.argv[4]) if len(sys.argv) > 4 else {}
    for i in range(n):
        p = gen(rng, i + 1, **kw)
        print(p); print('\n'.join(sched_lines(rng, k, 8)))
