#!/usr/bin/env python3
"""check_all.py PROPERTY|ALL: like bin/check.py, smaller; ALL: programs of every profile, every rule counts. Development only."""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/bin')
import build, check, registry, rtcheck
pid = sys.argv[1]
rtcheck.models = lambda *a: None
if pid == 'ALL':
    rtcheck.QUICK_TRACES = int(os.environ.get('TRACES', '24000'))
    P, seen = [], []
    for k, v in rtcheck.PROFILES.items():
        for w, c, kw in v[:3]:
            if (c, kw) not in seen: seen.append((c, kw)); P.append((w, c, kw))
    rtcheck.PROFILES['ALL'] = P
    rtcheck.FAMILIES['ALL'] = ['nest', 'narrow', 'futures', 'areas']
    rtcheck.relevant_rules = lambda pid, why: sorted(set(w for _, w in why))
    registry.CHECKS['ALL'] = [rtcheck.run]
sys.modules['__main__'].build = build
check.build = build
sys.argv = ['check.py', pid, 'quick']
try:
    rc = check.main()
except Exception as e:
    import traceback
    traceback.print_exc()
    rc = 3
sys.exit(rc)
