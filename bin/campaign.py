"""Development tool: random campaign, histogram of broken rules.  campaign.py SEED NPROG NSCHED CFG "profile kw" """
import sys, os, json, random, time, collections
from vlib import *
import build, gen
def main():
    seed, n, k, cfg = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    kw = eval('dict(%s)' % sys.argv[5]) if len(sys.argv) > 5 else {}
    rng = random.Random(seed)
    B = build.build('tasks', cfg)
    progs = []
    for i in range(n):
        p = gen.gen(rng, i + 1, **kw)
        progs.append(p + '\n' + '\n'.join(gen.sched_lines(rng, k, 8)) + '\n')
    d = scratch(os.environ.get('CAMP', 'camp'))
    t0 = time.time()
    res = run_driver(B, [''.join(c) for c in chunked(progs, NCPU * 2)], d)
    t1 = time.time()
    for kk, out, rc in res:
        if rc: print('chunk', kk, 'rc', rc)
    allf = os.path.join(d, 'all.ndjson'); tr = {}; ns = 0
    with open(allf, 'w') as f:
        for _, out, _ in res:
            for l in open(out):
                f.write(l); x = json.loads(l); tr[x['p'], x['id']] = x; ns += len(x['ev']) + 2
    rej, st = judge('TaskTrace.tla', 'TaskTrace.cfg', allf, d, trace_states)
    print('%d traces, run %.1fs judge %.1fs states %d expected %d' % (len(tr), t1 - t0, time.time() - t1, st[1], ns))
    h = collections.Counter(); ex = {}
    for p, i, why in rej:
        for w in sorted(set(x[1] for x in why)): h[w] += 1; ex.setdefault(w, []).append((p, i, [x[0] for x in why if x[1] == w][0]))
    for w, c in h.most_common(): print('%5d %s %s' % (c, w, ex[w][:4]))
if __name__ == '__main__': main()
