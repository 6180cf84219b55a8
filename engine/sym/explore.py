"""Exhaustive exploration of one harness: decision-prefix re-execution, spread over worker processes."""
import multiprocessing as mp
import os
import time
import traceback

import path as pathmod
from path import CUR, Path, Infeasible, Violation, RustPanic, Unmodelled, ST
from vm import VM

_root = None
_opts = {}


class Res:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.checks = 0
        self.decisions = 0
        self.steps = 0
        self.queries = 0
        self.ztime = 0.0
        self.viol = {}      # label -> list of inputs
        self.nviol = 0
        self.nerr = 0
        self.errors = {}    # message -> inputs
        self.errwit = []    # inputs of undecided paths
        self.covers = {}
        self.samples = []
        self.used = set()
        self.rest = []
        self.obs = []

    def merge(self, o, keep=6):
        for k in ('paths', 'infeasible', 'checks', 'decisions', 'steps', 'queries', 'ztime', 'nviol', 'nerr'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for l, v in o.viol.items():
            x = self.viol.setdefault(l, [])
            for y in v:
                if len(x) < keep:
                    x.append(y)
        for l, v in o.errors.items():
            self.errors.setdefault(l, v)
        if len(self.errwit) < 40:
            self.errwit += o.errwit[:4]
        for l, v in o.covers.items():
            self.covers[l] = self.covers.get(l, 0) + v
        self.used |= o.used
        if len(self.samples) < 400:
            self.samples += o.samples


def run_path(prefix, res):
    P = Path(prefix)
    CUR.P = P
    q0, z0 = ST.queries, ST.time
    try:
        try:
            VM.F[_root]()
            if not P.sat():
                raise Infeasible()
            res.paths += 1
            n = res.paths
            if n & (n - 1) == 0 or n % 97 == 0:
                res.samples.append((P.model_inputs(), obs(P)))
        except RustPanic as e:
            res.paths += 1
            if not P.sat():
                raise Infeasible()
            raise Violation('panic: ' + e.msg, P.model_inputs())
    except Infeasible:
        res.infeasible += 1
    except Violation as v:
        res.nviol += 1
        x = res.viol.setdefault(v.label, [])
        if len(x) < 4:
            x.append(v.model)
    except Unmodelled as e:
        msg = str(e)
        res.nerr += 1
        if msg in res.errors and len(res.errwit) < 4:
            try:
                P.sat()
                res.errwit.append(P.model_inputs())
            except Exception:
                pass
        if msg not in res.errors:
            try:
                P.sat()
                inp = P.model_inputs()
            except Exception:
                inp = None
            fr = []
            tb = e.__traceback__
            while tb is not None:
                f = tb.tb_frame.f_code
                if f.co_filename.startswith('<mir'):
                    nm = f.co_filename[5:-1]
                    if not fr or fr[-1] != nm:
                        fr.append(nm)
                tb = tb.tb_next
            res.errors[msg] = (inp, fr[-8:])
    except RecursionError:
        try:
            if P.sat():
                res.nviol += 1
                res.viol.setdefault('nontermination', []).append(P.model_inputs())
        except Exception:
            res.nerr += 1
            res.errors['recursion'] = (None, [])
    except Exception as e:
        res.nerr += 1
        fr = []
        tb = e.__traceback__
        while tb is not None:
            f = tb.tb_frame.f_code
            if f.co_filename.startswith('<mir'):
                nm = f.co_filename[5:-1]
                if not fr or fr[-1] != nm:
                    fr.append(nm)
            tb = tb.tb_next
        res.errors['internal: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' @ ' +
                   ' '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)[-5:])] = (None, fr[-8:])
    for l, mi in P.viols:
        res.nviol += 1
        x = res.viol.setdefault(l, [])
        if len(x) < 4:
            x.append(mi)
    for c in P.covers:
        res.covers[c] = res.covers.get(c, 0) + 1
    res.checks += P.nchecks
    res.decisions += len(P.trace)
    res.steps += P.steps
    res.queries += ST.queries - q0
    res.ztime += ST.time - z0
    return P.alts


def obs(P):
    """observed byte strings under the last model"""
    out = []
    if P.obs:
        from expr import E, toz
        mdl = P._m
        for label, bs in P.obs:
            r = []
            for b in bs:
                if type(b) is E:
                    vals = b.a[1] if b.op == 'tab' else None
                    # evaluate under model_inputs-completed assignment
                    r.append(('e', b.id, b))
                else:
                    r.append(b)
            out.append((label, r))
        # complete model consistently with model_inputs
        asg = {}
        inp = P.model_inputs()
        for (k, v), x in zip(P.inputs, inp):
            if k == 'b':
                asg[v] = x
        fin = []
        for label, r in out:
            l = []
            for x in r:
                if type(x) is tuple:
                    e = x[2]
                    if e.op == 'tab':
                        l.append(e.a[1][asg[e.a[0]]])
                    else:
                        z = mdl.eval(toz(e), model_completion=True)
                        l.append(z.as_long())
                else:
                    l.append(x)
            fin.append((label, bytes(y & 255 for y in l).hex()))
        return fin
    return []


def work(prefixes):
    res = Res()
    stack = list(prefixes)
    t0 = time.time()
    used0 = set(VM.used)
    sl = _opts.get('slice', 1.0)
    while stack:
        if time.time() - t0 > sl and res.paths + res.infeasible > 0:
            break
        alts = run_path(stack.pop(), res)
        stack.extend(alts)
        if len(res.errors) > 6 and not _opts.get('keep_going'):
            break
    res.rest = stack
    res.used = set(VM.used)
    return res


def explore(root, jobs=8, limit=600, max_viol=None, log=None):
    """returns (Res, complete: bool)"""
    global _root
    _root = VM.roots[root]
    total = Res()
    t0 = time.time()
    stack = [[]]
    # sequential warm-up
    _opts['slice'] = 0.3
    r = work(stack)
    total.merge(r)
    stack = r.rest
    _opts['slice'] = 1.0
    if not stack or (total.errors and not _opts.get('keep_going')):
        return total, not stack
    if jobs == 1:
        while stack and time.time() - t0 < limit:
            r = work(stack)
            total.merge(r)
            stack = r.rest
            if total.errors and not _opts.get('keep_going'):
                break
        return total, not stack
    ctx = mp.get_context('fork')
    pool = ctx.Pool(jobs)
    pend = []
    complete = True
    last = time.time()
    try:
        while stack or pend:
            if time.time() - t0 > limit or (len(total.errors) > 6 and not _opts.get('keep_going')):
                complete = False
                break
            if max_viol is not None and total.nviol >= max_viol:
                complete = False
                break
            while stack and len(pend) < jobs * 2:
                # shallow prefixes first: they are the biggest subtrees
                k = max(1, len(stack) // (jobs * 2))
                chunk, stack = stack[:k], stack[k:]
                pend.append(pool.apply_async(work, (chunk,)))
            done = [p for p in pend if p.ready()]
            if not done:
                pend[0].wait(0.02)
                continue
            for p in done:
                pend.remove(p)
                r = p.get()
                total.merge(r)
                stack.extend(r.rest)
            if log and time.time() - last > 5:
                last = time.time()
                log('  .. paths %d, queue %d, viol %d, err %d, %.0fs' % (total.paths, len(stack), total.nviol, len(total.errors), last - t0))
    finally:
        pool.terminate()
        pool.join()
    return total, complete and not stack
