"""Checks of the properties of the whole runtime: programs are executed by the real library under the controlled
scheduler, every recorded trace is judged by TLC against spec/TaskSystem.tla."""
import collections, json, os, random, re, time
from vlib import *
import build, gen

# rule of the specification -> properties it states a part of
RULES = [
    (r'sub\.twice|start\.(unsubmitted|again)|end\.notrunning', 'C02'),
    (r'resume\.notpaused', 'C02 C06'),
    (r'start\.conflict', 'C01'),
    (r'start\.held', 'C06 C01'),
    (r'start\.event', 'C06 C01'),
    (r'start\.kids', 'C05 C01'),
    (r'start\.narrowed', 'C10 C01'),
    (r'start\.(seen|kidseen)', 'C19'),
    (r'start\.ctx|resume\.ctx|ctx\..*|mk\.failed', 'C21'),
    (r'.*\.destroyed|dtor\..*|memory\..*|run\.TouchFreed|run\.BadFree|end\.undestroyed|idle\.destroy', 'C09'),
    (r'run\.BadFree|memory\..*', 'C17'),
    (r'resume\.early', 'C06'),
    (r'get\.early|ready\..*', 'C07'),
    (r'get\.value', 'C07 C19'),
    (r'narrow\..*', 'C10'),
    (r'barrier\..*|finalize\..*', 'C08'),
    (r'idle\.start', 'C03 C04'),
    (r'idle\.start\.kid', 'C05'),
    (r'idle\.start\.narrowed', 'C10'),
    (r'idle\.start\.event', 'C06'),
    (r'idle\.resume', 'C03 C06'),
    (r'idle\.get', 'C03 C07'),
    (r'idle\.barrier', 'C03 C08'),
    (r'idle\.(submit|reach|running)', 'C03 C06'),
    (r'idle\.narrow', 'C03 C10'),
    (r'end\.unfinished', 'C02 C03 C08'),
    # the run did not survive: the property's own programs could not be carried through
    (r'run\.(Crash|Killed|Stuck|Hang|Throw|BadOp|Malformed)', 'C02 C03 C04 C05 C06 C07 C08 C09 C10 C19'),
    (r'run\.(Crash|Killed|Throw|Malformed)', 'C21'),
]
RULES = [(re.compile(a + r'\Z'), b.split()) for a, b in RULES]
def props_of(rule):
    r = set()
    for a, b in RULES:
        if a.match(rule): r |= set(b)
    return r

G = dict()
DEM = dict(demote=0.35, nest=0.4)
NEST = dict(nest=0.7, depth=4, max_tasks=10, min_tasks=3)
EVT = dict(event=0.5, yieldp=0.4, max_tasks=6)
GETS = dict(get=0.6, ready=0.4, drop=0.4, max_tasks=7)
MANY = dict(max_tasks=16, min_tasks=6, batches=5)
WORK = dict(workers=(1, 9), max_tasks=14)
ONE = dict(workers=(1, 1), max_tasks=8)
REIN = dict(reinit=0.4, barrier=0.4, finonly=0.3, workers=(1, 6))
TAGS = dict(sched=('tags',))
CTX = dict(ctx=0.5, nest=0.5, yieldp=0.35)
HOLD = dict(yieldp=0.5, event=0.15, max_tasks=12, min_tasks=4, gate=0.1, modes=(0, 1, 1, 1, 2, 3))
HOT = dict(max_res=1, hot=1.0, nest=0.15, max_tasks=12, min_tasks=4)
# property -> list of (share, configuration, generator options)
PROFILES = {
    'C01': [(3, 'small', G), (2, 'small', HOT), (2, 'default', G), (1, 'alt', MANY), (2, 'small', EVT), (1, 'small', NEST), (1, 'small', DEM), (1, 'alt', TAGS)],
    'C02': [(3, 'small', EVT), (2, 'small', WORK), (2, 'default', EVT), (1, 'alt', G), (1, 'small', NEST), (1, 'small', TAGS), (1, 'default', MANY)],
    'C03': [(3, 'small', G), (2, 'default', EVT), (2, 'alt', WORK), (2, 'small', ONE), (1, 'small', TAGS), (1, 'small', GETS), (1, 'small', DEM), (1, 'alt', MANY)],
    'C04': [(3, 'small', HOLD), (2, 'default', HOLD), (2, 'alt', dict(HOLD, workers=(1, 1))), (1, 'small', dict(HOLD, nest=0.6)), (1, 'small', DEM)],
    'C05': [(4, 'small', NEST), (2, 'default', NEST), (1, 'alt', dict(NEST, demote=0.2)), (2, 'small', dict(NEST, event=0.4, yieldp=0.3))],
    'C06': [(4, 'small', EVT), (2, 'default', EVT), (1, 'alt', dict(EVT, main_yield=0.3)), (1, 'small', dict(EVT, nest=0.6)), (1, 'small', HOLD)],
    'C07': [(4, 'small', GETS), (2, 'default', GETS), (1, 'alt', dict(GETS, event=0.5)), (1, 'small', dict(GETS, nest=0.6)), (1, 'small', dict(GETS, workers=(1, 1)))],
    'C08': [(4, 'small', REIN), (2, 'default', REIN), (1, 'alt', dict(REIN, nest=0.6)), (1, 'small', dict(REIN, event=0.5)), (1, 'small', dict(REIN, workers=(4, 12), pus=2))],
    'C09': [(3, 'small', GETS), (2, 'small', EVT), (1, 'default', G), (1, 'alt', REIN), (1, 'small', NEST), (1, 'small', DEM), (1, 'alt', dict(big=0.5, lst=0.5))],
    'C10': [(4, 'small', DEM), (2, 'default', DEM), (1, 'alt', dict(DEM, max_tasks=14)), (2, 'small', dict(DEM, max_res=2, nest=0.15, max_tasks=10)), (1, 'small', dict(DEM, event=0.4, yieldp=0.3))],
    'C19': [(3, 'small', G), (2, 'default', G), (1, 'alt', MANY), (1, 'small', NEST), (1, 'small', DEM), (1, 'small', EVT), (1, 'small', HOT)],
    'C21': [(4, 'small', CTX), (2, 'default', CTX), (1, 'alt', dict(CTX, nest=0.7, depth=4)), (1, 'small', dict(CTX, get=0.5))],
}
# families of spec/Programs.tla: model checked against the rules, and their programs executed by the library
FAMILIES = {
    'C01': ['conflict', 'areas'], 'C02': ['conflict', 'nest'], 'C03': ['narrow', 'futures'], 'C04': ['areas', 'nest'], 'C05': ['nest'], 'C06': ['nest', 'futures'],
    'C07': ['futures'], 'C08': ['nest'], 'C09': ['futures', 'nest'], 'C10': ['narrow'], 'C19': ['conflict', 'areas'], 'C21': ['nest', 'futures'],
}
INVARIANTS = 'ConflictOrder NarrowOrder NoSpuriousWait Families FamilyComplete EventsHold DestroyedOnce Sequential Final IdleRules IdleMeansWaiting'
def models(pid, tier, rep):
    for f in FAMILIES[pid]:
        n = 2 if tier == 'quick' else 3
        run_model(rep, 'MC_TaskSystem.tla', None, 'MC_TaskSystem-%s-%d' % (f, n),
                  text='SPECIFICATION Spec\nCONSTANTS N = %d\n Family = "%s"\n WORKERS = 2\nINVARIANTS %s\n' % (n, f, INVARIANTS))

    if tier == 'quick': return
    if rep.left() < 200: rep.note('left_out', 'time ran out'); return
    for st, n in MECHANISM.get(pid, []): mechanism(rep, st, n, '')
    for st, n, bug in DEFECTS.get(pid, []): mechanism(rep, st, n, bug)
    for f in FAMILIES[pid]:
        run_model(rep, 'Runtime.tla', None, 'Runtime-random-%s-3' % f, sim=4000,
                  text='INIT Init\nNEXT Next\nCONSTANTS N = 3\n WORKERS = 3\n Family = "%s"\n Set = "all"\n Bug = ""\n defaultInitValue = 0\nINVARIANTS NothingBroken IdleOK\n' % f)
# spec/Runtime.tla: every interleaving of the mechanism for some programs, and the variants with a defect
MECHANISM = {
    'C01': [('two', 2)], 'C02': [('childget', 2)], 'C03': [('mainget', 2), ('childget', 2)], 'C04': [('narrow', 2)], 'C05': [('child', 2)], 'C06': [('event', 2)],
    'C07': [('mainget', 2), ('childget', 2)], 'C08': [('two', 2)], 'C09': [('mainget', 2)], 'C10': [('narrow', 2)],
}
DEFECTS = {
    'C01': [('family3', 3, 'stop_at_foreign_writer')], 'C02': [('two', 2, 'ready_read_again')], 'C03': [('two', 2, 'wake_before_push'), ('childget', 2, 'follower_unlocked')],
    'C05': [('child', 2, 'parent_edge_late')], 'C06': [('pause', 2, 'pause_counts_one')], 'C07': [('mainget', 2, 'register_after_check')],
    'C08': [('two', 2, 'wake_before_stop')], 'C09': [('mainget', 2, 'countdown_in_two_steps')], 'C10': [('narrow', 2, 'narrow_keeps_edge')],
}
def mechanism(rep, st, n, bug):
    run_model(rep, 'Runtime.tla', None, 'Runtime-%s-%d-%s' % (st, n, bug or 'as-is'), deadlock=True, wrong=bool(bug),
              text='INIT Init\nNEXT NextOrEnd\nCONSTANTS N = %d\n WORKERS = 2\n Family = "conflict"\n Set = "%s"\n Bug = "%s"\n defaultInitValue = 0\nINVARIANTS NothingBroken IdleOK\n' % (n, st, bug))

# large programs: many tasks, workers, users of a resource, deep nesting (capacities, chunk and queue boundaries)
BULK = [('small', dict(max_tasks=250, min_tasks=120, workers=(1, 80), max_res=4)),
        ('default', dict(max_tasks=380, min_tasks=250, workers=(1, 8), max_res=1, nest=0.05, event=0.02, yieldp=0.02, gate=0.02, get=0.02, ready=0.02, barrier=0.0, demote=0.03)),
        ('small', dict(max_tasks=70, min_tasks=45, workers=(1, 8), nest=0.97, chain=0.9, depth=60, ctx=0.3, yieldp=0.2))]
QUICK_TRACES = 24000
THOROUGH_TRACES = 150000

def wellformed(x):
    n = x['n']
    def tid(v, z=0): return isinstance(v, int) and z <= v <= n
    try:
        for e in x['ev']:
            k = e[0]
            if k in ('Sub',):
                if not tid(e[1], 1) or not tid(e[2]): return False
            elif k in ('SubR', 'Start', 'End', 'Drop', 'Rdy', 'Dem', 'DemR', 'Dtor'):
                if not tid(e[1], 1): return False
            elif k in ('Mk', 'MkFail', 'Yield', 'Resume', 'Ctx'):
                if not tid(e[1]): return False
            elif k in ('Get', 'GetR'):
                if not tid(e[1]) or not tid(e[2], 1): return False
    except (IndexError, TypeError):
        return False
    return True

def execute(binary, chunks, d, budget):
    """runs the programs, returns the trace lines (strings) and the malformed ones"""
    res = run_driver(binary, chunks, d, env={'VS_BUDGET': str(budget)}, timeout=budget + 150)
    lines, bad = [], []
    for k, out, rc in res:
        if not os.path.exists(out): continue
        for l in open(out, errors='replace'):
            try:
                x = json.loads(l)
                (lines if wellformed(x) else bad).append(l)
            except ValueError:
                bad.append(l)
    return lines, bad, [rc for _, _, rc in res]

def judge_traces(lines, d):
    """judges traces; a trace TLC cannot evaluate is isolated and reported as run.Malformed"""
    seen, uniq, dup = {}, [], 0
    for l in lines:
        k = l[l.index('"ev":'):] + l[:l.index(',')]
        if k in seen: dup += 1
        else: seen[k] = 1; uniq.append(l)
    try:
        rej, st = judge('TaskTrace.tla', 'TaskTrace.cfg', uniq, d, trace_states)
        return rej, st, len(uniq)
    except (TlcError, subprocess.TimeoutExpired) as e:
        # find the traces that cannot be evaluated
        err = e
    def rec(ls):
        try:
            return judge('TaskTrace.tla', 'TaskTrace.cfg', ls, d, trace_states, par=1)
        except TlcError:
            if len(ls) == 1:
                x = json.loads(ls[0]); return [(x['p'], x['id'], [(0, 'run.Malformed')])], (0, 0)
            h = len(ls) // 2
            a, b = rec(ls[:h]), rec(ls[h:])
            return a[0] + b[0], (a[1][0] + b[1][0], a[1][1] + b[1][1])
    odd = [l for l in uniq if json.loads(l)['rc'] != 0]
    ok = [l for l in uniq if json.loads(l)['rc'] == 0]
    if not odd: raise err
    r1, s1 = judge('TaskTrace.tla', 'TaskTrace.cfg', ok, d, trace_states)
    r2, s2 = rec(odd)
    return r1 + r2, (s1[0] + s2[0], s1[1] + s2[1]), len(uniq)

def relevant_rules(pid, why):
    return sorted(set(w for _, w in why if pid in props_of(w)))

def make_programs(rng, n, k, kw, first, cache={}):
    progs = {}
    if 'family' in kw:
        f = kw['family']
        if f not in cache: cache[f] = [l for m in (2, 3) for l in family(f, m)]
        pick = rng.sample(cache[f], n) if n < len(cache[f]) else cache[f] * max(1, n // len(cache[f]))
        for i, l in enumerate(pick):
            progs[first + i] = (gen.from_family(rng, first + i, json.loads(l)), gen.sched_lines(rng, k, 8))
        return progs
    for i in range(n):
        p = gen.gen(rng, first + i, **kw)
        progs[first + i] = (p, gen.sched_lines(rng, k, 8))
    return progs

def text(progs): return [p + '\n' + '\n'.join(s) + '\n' for p, s in progs.values()]

def confirm(pid, binary, cfg, prog, sched, seed, d):
    """runs the schedule again, then others of the same program: a rejection has to repeat"""
    for attempt in range(4):
        rng = random.Random(seed * 1000 + attempt)
        ss = [sched] if attempt < 2 else gen.sched_lines(rng, 120, 8, first=1000 * attempt)
        parts = chunked(ss, NCPU)
        lines, bad, _ = execute(binary, [prog + '\n' + '\n'.join(q) + '\n' for q in parts], d, 60)
        if bad: return ['run.Malformed'] if 'run.Malformed' and pid in props_of('run.Malformed') else [], sched, None
        rej, _, _ = judge_traces(lines, d)
        for p, i, why in rej:
            rs = relevant_rules(pid, why)
            if rs:
                ln = [l for l in lines if json.loads(l)['id'] == i][0]
                sc = [s for s in ss if int(s.split()[1]) == i][0]
                return rs, sc, ln
    return [], None, None

def run(pid, tier, seed, rep):
    rng = random.Random('%s-%d-%s' % (pid, seed, tier))
    prof = PROFILES[pid] + [(3 / len(FAMILIES[pid]), 'small', dict(family=f)) for f in FAMILIES[pid]]
    total = QUICK_TRACES if tier == 'quick' else THOROUGH_TRACES
    k = 6
    share = sum(p[0] for p in prof)
    nb = 12 if tier == 'quick' else 160
    own = {o: v for o, v in prof[0][2].items() if o in ('event', 'yieldp', 'get', 'ready', 'drop', 'demote', 'ctx', 'reinit', 'barrier', 'modes')}
    prof += [(0.25, c, dict(own, bulk=nb, **{o: v for o, v in kw.items() if o not in own})) for c, kw in BULK]
    ts = time.time()
    cfgs = sorted(set(p[1] for p in prof))
    bins = {c: build.build('tasks', c) for c in cfgs}
    rep.note('build', round(time.time() - ts, 1))
    budget_all = 150.0 if tier == 'quick' else 500.0
    first = 1
    kinds = collections.Counter(); other = collections.Counter()
    for w, cfg, kw in prof:
        kk = 3 if 'family' in kw else k
        n = max(1, int(total * w / share / kk))
        if rep.left() < 90: rep.note('left_out', 'time ran out'); break
        if 'bulk' in kw: kw = dict(kw); n, kk = kw.pop('bulk'), 1
        progs = make_programs(rng, n, kk, kw, first); first += len(progs)
        d = scratch('%s-%s' % (pid, tier))
        lines, bad, rcs = execute(bins[cfg], [''.join(c) for c in chunked(text(progs), NCPU * 2)], d, min(budget_all * w / share, rep.left() / 2))
        if any(rc not in (0,) for rc in rcs): rep.note('driver_rc', rcs)
        rej, st, nu = judge_traces(lines, d)
        for l in bad:
            a, b = re.search(r'"p":\s*(\d+),', l), re.search(r'"id":\s*(\d+),', l)
            if a and b: rej.append((int(a.group(1)), int(b.group(1)), [(0, 'run.Malformed')]))
        rep.traces += nu; rep.states += st[1]; rep.transitions += st[0] - nu if st[0] > nu else 0
        rep.runs += len(lines)
        for l in lines[::97]:
            for e in json.loads(l)['ev']: kinds[e[0]] += 1
        if lines: rep.sample({'config': cfg, 'program': progs[json.loads(lines[0])['p']][0].split('\n'), 'trace': json.loads(lines[0])['ev'][:60]})
        cand = []
        for p, i, why in rej:
            rs = relevant_rules(pid, why)
            for wname in set(x[1] for x in why): other[wname] += 1
            if rs: cand.append((p, i, rs))
        for p, i, rs in sorted(cand)[:6]:
            sc = [s for s in progs[p][1] if int(s.split()[1]) == i][0]
            rs2, sc2, ln = confirm(pid, bins[cfg], cfg, progs[p][0], sc, seed, scratch('%s-%s-c' % (pid, tier)))
            if rs2:
                rep.violation('tasks', cfg, progs[p][0] + '\n' + sc2 + '\n', rs2, json.loads(ln)['ev'] if ln else None)
                break
            rep.note('unconfirmed', (p, i, rs))
        if rep.violations: break
    if not rep.violations: models(pid, tier, rep)
    rep.note('events_sampled', dict(kinds))
    if other: rep.note('rules_broken', dict(other))
