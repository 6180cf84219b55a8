"""development driver: run1.py FEATURES HARNESS[,HARNESS..] [--nobuild] [--trace] [-j N] [--replay]"""
import argparse, json, os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, models, explore, native
from vm import VM
from path import ST
ap = argparse.ArgumentParser()
ap.add_argument('features'); ap.add_argument('roots')
ap.add_argument('--nobuild', action='store_true'); ap.add_argument('--trace', action='store_true'); ap.add_argument('-j', type=int, default=8)
ap.add_argument('--replay', action='store_true'); ap.add_argument('--limit', type=int, default=300)
a = ap.parse_args()
feats = a.features.split(','); roots = a.roots.split(',')
t = time.time()
pf = os.path.join(build.BUILD, 'dump-%s.json' % '-'.join(sorted(feats)))
if not a.nobuild:
    p, dt = build.dump(feats, roots, VM.models, VM.prefix_models, models.STOP_CRATES)
    os.unlink(p)
    print('dump %.1fs' % dt, os.path.getsize(pf))
VM.trace = a.trace
VM.showcode = os.environ.get('SHOW')
VM.load(pf)
from collections import Counter
print(len(VM.fns), Counter((f or {}).get('k') for f in VM.fns), 'load', round(time.time() - t, 1))
nat = build.native(feats) if a.replay else None
for r in VM.roots:
    if not any(r.startswith(x) for x in roots): continue
    t = time.time()
    res, done = explore.explore(r, jobs=a.j, limit=a.limit, log=None)
    print('==', r, 'complete' if done else 'INCOMPLETE', 'paths', res.paths, 'infeas', res.infeasible, 'checks', res.checks, 'dec', res.decisions, 'q', res.queries, 'zt %.1f' % res.ztime, 'wall %.1f' % (time.time() - t), 'fns', len(res.used))
    print('   covers', res.covers)
    for l, v in res.viol.items():
        print('   VIOL', l, len(v), v[:2])
        if nat:
            for x in v[:2]: print('      native:', native.run(nat, r, x))
    for l, v in res.errors.items(): print('   ERR', l[:260], v[0], [x[-60:] for x in v[1][-3:]])
    if nat:
        bad = 0
        for x, o in res.samples:
            f, no, last = native.run(nat, r, x)
            if last != 'PASS' or [tuple(z) for z in o] != no:
                bad += 1
                if bad < 4: print('   SAMPLE MISMATCH', x, o, f, no, last)
        print('   samples', len(res.samples), 'bad', bad)
