"""check.py ID [--tier quick|thorough]: decides one property by symbolic execution of the code's MIR.

exit 0  every explored path of every harness satisfies its assertions
exit 1  + 'VIOLATION property=<id> replay=<path>' for a counterexample that the native build reproduces
exit 2  no verdict (build failure, vacuous harness, encoding gap, counterexample that does not reproduce)
"""
import argparse
import hashlib
import json
import os
import re
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VERIF = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, os.path.join(VERIF, 'checks'))
import build
import models
import explore
from native import run as native_run
from vm import VM
import props

JOBS = int(os.environ.get('ORO_JOBS') or os.cpu_count() or 8)


def reproduced(label, fails):
    if label in fails:
        return True
    if label.startswith('panic:'):
        return any(f.startswith('panic:') or f.startswith('timeout:') for f in fails)
    if label.startswith('nontermination'):
        return any(f.startswith(('timeout:', 'panic:')) for f in fails)
    return False


def known(prop, harness, label, fails):
    for k in props.KNOWN:
        if k['property'] != prop:
            continue
        if 'harness' in k and not re.match(k['harness'], harness):
            continue
        if re.search(k['label'], label):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    a = ap.parse_args()
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    P = props.PROPS[a.prop]
    t0 = time.time()
    ev = dict(property=a.prop, tier=tier, seed=seed, level='other', coverage={}, wall_s=0.0, assumptions=P.get('assume', []), violations=0)
    harn = [h for h in P['harnesses'] if h.get('tier', 'both') in ('both', tier)]
    feats = P['features']
    code, hres, viols, knowns, notes = run(a.prop, tier, P, harn, feats)
    cov = ev['coverage']
    used = sorted(set().union(*[h['functions'] for h in hres])) if hres else []
    proj = [f for f in used if re.match(r'^(<)?(vh|oro_|nassun|node_maintainer|orogene)', f) and not f.startswith('vh::')]
    cov['explanation'] = ('Symbolic execution of the MIR of the listed functions, regenerated from /repo on this run: every input byte or choice of the '
                          'harness is a symbolic variable; each feasible path is discharged by z3 (path feasibility, branch feasibility and the negation of '
                          'every assertion). Bounds: ' + P['bounds'])
    cov['bounds'] = P['bounds']
    cov['harnesses'] = [{k: v for k, v in h.items() if k != 'functions'} for h in hres]
    cov['paths'] = sum(h['paths'] for h in hres)
    cov['assertions_evaluated'] = sum(h['checks'] for h in hres)
    cov['solver_queries'] = sum(h['queries'] for h in hres)
    cov['solver_time_s'] = round(sum(h['solver_s'] for h in hres), 2)
    cov['decisions'] = sum(h['decisions'] for h in hres)
    cov['undecided_paths'] = sum(h['undecided'] for h in hres)
    cov['exhaustive'] = bool(hres) and all(h['complete'] and not h['undecided'] for h in hres)
    cov['native_conformance_samples'] = sum(h['conformance'] for h in hres)
    cov['functions_encoded'] = len(used)
    cov['project_functions_encoded'] = proj
    cov['samples'] = [s for h in hres for s in h['samples'][:3]][:12]
    ev['violations'] = len(viols)
    if knowns:
        cov['known_findings_seen'] = sorted(knowns)
    if notes:
        cov['notes'] = notes
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for k in sorted(knowns):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, k))
    for n in notes:
        print('NOTE: ' + n)
    for v in viols:
        print('VIOLATION property=%s replay=%s' % (a.prop, v))
    print('%s %s: exit %d, %d paths, %d assertions, %d queries (%.1fs solver), %.1fs' % (
        a.prop, tier, code, cov['paths'], cov['assertions_evaluated'], cov['solver_queries'], cov['solver_time_s'], ev['wall_s']))
    sys.stdout.flush()
    sys.exit(code)


def run(prop, tier, P, harn, feats):
    hres, viols, knowns, notes = [], [], set(), []
    code = 0
    try:
        pf, dt = build.dump(feats, [h['name'] for h in harn], VM.models, VM.prefix_models, models.STOP_CRATES)
    except build.BuildError as e:
        print(str(e)[-3000:])
        return 2, hres, viols, knowns, ['build failed']
    VM.load(pf)
    os.unlink(pf)
    natp = []

    def nat():
        if not natp:
            natp.append(build.native(feats))
        return natp[0]
    explore._opts['keep_going'] = True
    seen_known = {}
    for h in harn:
        t1 = time.time()
        limit = h.get('limit', 240 if tier == 'quick' else 1500)
        res, done = explore.explore(h['name'], jobs=JOBS, limit=limit, max_viol=None)
        r = dict(name=h['name'], paths=res.paths, infeasible=res.infeasible, checks=res.checks, queries=res.queries, solver_s=round(res.ztime, 2),
                 decisions=res.decisions, undecided=res.nerr, complete=done, covers=res.covers, wall_s=round(time.time() - t1, 2), conformance=0,
                 functions=sorted(VM.fns[i]['n'] for i in res.used if VM.fns[i]), violating_paths=res.nviol,
                 samples=[dict(harness=h['name'], inputs=s[0], observed=s[1]) for s in res.samples[:4]])
        hres.append(r)
        for msg, (inp, fr) in res.errors.items():
            notes.append('undecided in %s: %s %s' % (h['name'], msg[:300], [x[-70:] for x in fr[-2:]]))
        if not done:
            notes.append('%s: time limit reached, exploration incomplete (%d paths decided)' % (h['name'], res.paths))
        miss = [c for c in h.get('covers', []) if c not in res.covers]
        # violations first: they need the native build
        for label in sorted(res.viol):
            k = known(prop, h['name'], label, None)
            if k and tier == 'quick' and k['what'] in knowns:
                continue
            rep = None
            for inp in res.viol[label]:
                fails, obs, last = native_run(nat(), h['name'], inp)
                if reproduced(label, fails):
                    rep = (inp, fails)
                    break
            if rep is None:
                notes.append('counterexample of %s not reproduced natively: %s %s -> %s' % (h['name'], label, res.viol[label][0], (fails, last)))
                code = max(code, 2)
                continue
            if k:
                knowns.add(k['what'])
                continue
            d = os.path.join(build.BUILD, 'replay')
            os.makedirs(d, exist_ok=True)
            fn = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha256((h['name'] + label).encode()).hexdigest()[:8]))
            with open(fn, 'w') as f:
                json.dump(dict(property=prop, harness=h['name'], label=label, inputs=rep[0], native_failures=rep[1], features=feats,
                               how='cargo run in /verif/harness with these features: vhreplay HARNESS INPUTS(comma separated)'), f, indent=1)
            print('counterexample %s: %s inputs=%s native=%s' % (h['name'], label, rep[0], rep[1]))
            viols.append(fn)
        # paths the engine could not decide: the solver's witness of the path is still run against the real code
        for inp in ([e[0] for e in res.errors.values() if e[0]] + res.errwit)[:24] if res.nerr else []:
            fails, obs, last = native_run(nat(), h['name'], inp)
            for label in fails:
                k = known(prop, h['name'], label, None)
                if k:
                    knowns.add(k['what'])
                    continue
                d = os.path.join(build.BUILD, 'replay')
                os.makedirs(d, exist_ok=True)
                fn = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha256((h['name'] + label).encode()).hexdigest()[:8]))
                if fn in viols:
                    continue
                with open(fn, 'w') as f:
                    json.dump(dict(property=prop, harness=h['name'], label=label, inputs=inp, native_failures=fails, features=feats, undecided_path=True), f, indent=1)
                print('counterexample %s (witness of an undecided path): %s inputs=%s' % (h['name'], label, inp))
                viols.append(fn)
        if miss:
            notes.append('%s: cover points not reached: %s' % (h['name'], miss))
            code = max(code, 2)
        if res.nerr and (res.paths == 0 or res.nerr > res.paths):
            notes.append('%s: more paths undecided than decided' % h['name'])
            code = max(code, 2)
        if tier == 'thorough' and not h.get('noconf'):
            bad = 0
            for inp, o in res.samples[:120]:
                fails, obs, last = native_run(nat(), h['name'], inp)
                if last == 'PASS' and [tuple(x) for x in o] == obs:
                    r['conformance'] += 1
                else:
                    bad += 1
                    if bad <= 3:
                        notes.append('CONFORMANCE: %s %s symbolic %s native %s %s' % (h['name'], inp, o, obs, (fails, last)))
            if bad:
                code = max(code, 2)
    if viols:
        code = 1
    return code, hres, viols, knowns, notes


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(2)
