#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough: decides one property for /repo's current working tree.
Exit 0: held on everything explored. Exit 1 and a VIOLATION line: broken."""
import sys, os, re, json, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

class Report:
    def __init__(s, pid, tier, seed):
        s.pid, s.tier, s.seed = pid, tier, seed
        s.states = s.transitions = s.traces = s.runs = 0
        s.samples, s.notes, s.violations, s.models = [], {}, [], []
        s.t0 = time.time()
        s.end = s.t0 + (600 if tier == 'quick' else 840)
        s.known = known_findings(pid)
        s.known_hit = []
    def left(s): return s.end - time.time()
    def note(s, k, v):
        if k == 'unconfirmed': s.notes.setdefault(k, []).append(v)
        else: s.notes[k] = v
    def sample(s, x):
        if len(s.samples) < 4: s.samples.append(x)
    def model(s, name, out):
        g, dst = tlc_states(out)
        m = re.search(r'The number of states generated: (\d+)', out)
        if m: g = dst = int(m.group(1))   # random behaviours
        s.states += dst; s.transitions += g
        s.models.append({'model': name, 'states': dst, 'transitions': g})
    def violation(s, driver, cfg, inp, rules, trace=None, key=None):
        key = key or '%s %s' % (driver, ','.join(rules))
        if key in s.known:
            if key not in s.known_hit: s.known_hit.append(key)
            return
        d = os.path.join(ROOT, '.cache', 'replay'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d-%d.json' % (s.pid, s.tier, s.seed, len(s.violations)))
        with open(path, 'w') as f:
            json.dump({'property': s.pid, 'driver': driver, 'config': cfg, 'input': inp, 'rules': rules, 'trace': trace}, f, indent=1)
        s.violations.append((path, rules))
    def write(s):
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        cov = {'states': s.states, 'transitions': s.transitions, 'traces_validated_against_impl': s.traces,
               'executions': s.runs, 'models': s.models, 'samples': s.samples or ['none']}
        cov.update(s.notes)
        ev = {'property': s.pid, 'tier': s.tier, 'seed': s.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': ASSUME, 'wall_s': round(time.time() - s.t0, 2), 'violations': len(s.violations)}
        with open(os.path.join(ROOT, 'evidence', s.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)

ASSUME = ['sequentially consistent interleavings: every atomic operation, lock, wait and thread operation is a scheduling point, weaker memory orders are not explored',
          'executions explored are a seeded sample; the models are exhaustive only within their constants',
          'the compiler, TLC and the controlled scheduler of /verif/rt are trusted']

def known_findings(pid):
    r = {}
    try:
        for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')):
            if l.startswith('finding: property=%s ' % pid):
                key, txt = l.split(' key="', 1)[1].split('" ', 1)
                r[key] = txt.strip()
    except OSError:
        pass
    return r

def main():
    pid, tier = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    rep = Report(pid, tier, seed)
    import registry
    try:
        for fn in registry.CHECKS[pid]:
            fn(pid, tier, seed, rep)
            if rep.violations: break
    except build.BuildError as e:
        print('BUILD FAILED\n' + str(e)); rep.write(); return 2
    rep.write()
    for k in rep.known_hit: print('KNOWN-FINDING: property=%s %s' % (pid, rep.known[k]))
    for path, rules in rep.violations:
        print('broken rules: %s' % ', '.join(rules))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    print('%s %s: %d executions, %d traces judged, %d states, %.1f s%s' % (pid, tier, rep.runs, rep.traces, rep.states, time.time() - rep.t0,
          '' if rep.violations else ', held'))
    return 1 if rep.violations else 0

if __name__ == '__main__':
    import build
    sys.exit(main())
