"""Execution path state: decision prefix, path condition, byte-domain masks, z3 queries."""
import time
import z3
from expr import E, ALL, toz, band, bnot, bytevar, widevar, mk, mk_tt, cmp, varid, zvar, inmask


class PathEnd(Exception):
    pass


class Infeasible(PathEnd):
    pass


class Violation(PathEnd):
    def __init__(self, label, model):
        self.label = label
        self.model = model


class RustPanic(Exception):
    def __init__(self, msg):
        Exception.__init__(self, msg)
        self.msg = msg


class Unmodelled(Exception):
    pass


class Budget(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0


ST = Stats()
SOLVER = z3.Solver()
SOLVER.set('timeout', 60000)


class Path:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.alts = []
        self.pc = []
        self.npushed = 0
        self.sent = {}
        self.dom = {}
        self.dom0 = {}
        self.implicit = 0      # answers that depended on earlier decisions of this path
        self.rel = set()
        self.known = {}
        self.inputs = []       # ('c', value) | ('b', varidx) | ('w', expr)
        self.statics = {}
        self.env = {}
        self.covers = set()
        self.obs = []
        self.nchecks = 0
        self.nw = 0
        self.viols = []
        self.steps = 0
        SOLVER.reset()

    # -------- solver
    def sync(self):
        while self.npushed < len(self.pc):
            e = self.pc[self.npushed]
            if e.op != 'tt':
                SOLVER.add(toz(e))
            self.npushed += 1
        # single-byte constraints: one membership constraint per byte, its current domain
        sent = self.sent
        for i, d in self.dom.items():
            if sent.get(i) != d:
                sent[i] = d
                SOLVER.add(inmask(zvar(i), d) if d else z3.BoolVal(False))

    def sat(self, extra=None):
        self.sync()
        ST.queries += 1
        t = time.time()
        if extra is None or extra is True:
            r = SOLVER.check()
        elif extra is False:
            return False
        else:
            # push/pop switches z3 to its incremental core: assumptions are cheaper here
            SOLVER.push()
            SOLVER.add(toz(extra))
            r = SOLVER.check()
            if r == z3.sat:
                self._m = SOLVER.model()
            SOLVER.pop()
            ST.time += time.time() - t
            if r == z3.unknown:
                ST.unknown += 1
                raise Unmodelled('solver unknown')
            return r == z3.sat
        ST.time += time.time() - t
        if r == z3.unknown:
            ST.unknown += 1
            raise Unmodelled('solver unknown')
        if r == z3.sat:
            self._m = SOLVER.model()
        return r == z3.sat

    def model_inputs(self):
        m = self._m
        out = []
        for k, v in self.inputs:
            if k == 'c':
                out.append(v)
            elif k == 'b':
                z = m.eval(toz(bytevar(v)), model_completion=False)
                if z3.is_bv_value(z):
                    out.append(z.as_long())
                else:
                    d = self.dom[v]
                    # prefer a letter-ish witness
                    for c in b'a1x0':
                        if d >> c & 1:
                            out.append(c)
                            break
                    else:
                        out.append((d & -d).bit_length() - 1)
            else:
                z = m.eval(toz(v), model_completion=True)
                if z3.is_bv_value(z):
                    out.append(z.as_long())
                else:
                    out.append(1 if z3.is_true(z) else 0)
        return out

    # -------- inputs
    def new_byte(self, mask):
        i = varid(len(self.dom), mask)
        self.dom[i] = mask
        self.dom0[i] = mask
        self.inputs.append(('b', i))
        if mask & (mask - 1) == 0:
            return mask.bit_length() - 1
        return bytevar(i)

    def new_wide(self, w):
        self.nw += 1
        e = widevar('w%d_%d' % (self.nw, w), w)
        self.inputs.append(('w', e))
        return e

    # -------- decisions
    def add(self, lit):
        """assert literal (E)"""
        if lit.op == 'tt':
            i, m = lit.a
            self.dom[i] &= m
        else:
            self.rel |= lit.vs
        self.pc.append(lit)

    def truth(self, e):
        if type(e) is not E:
            return bool(e)
        neg = False
        while e.op == 'not':
            e = e.a[0]
            neg = not neg
        if e.op == 'tt':
            i, m = e.a
            d = self.dom[i]
            if d != self.dom0[i]:
                self.implicit += 1
            if not d & m:
                return neg
            if not d & ~m:
                return not neg
            if i not in self.rel:
                r = self._branch(e)
                return r != neg
        k = self.known.get(e.id)
        if k is not None:
            self.implicit += 1
            return k != neg
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
        else:
            t = self.sat(e)
            f = self.sat(bnot(e))
            if t and f:
                v = True
                self.alts.append(self.trace + [False])
            elif t:
                v = True
            elif f:
                v = False
            else:
                raise Infeasible()
            self.trace.append(v)
            self.pos += 1
        self.known[e.id] = v
        self.add(e if v else bnot(e))
        return v != neg

    def _branch(self, e):
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = True
            self.alts.append(self.trace + [False])
        self.pos += 1
        self.trace.append(v)
        self.add(e if v else bnot(e))
        return v

    def choose(self, n, record=False):
        if n <= 0:
            raise Infeasible()
        if n == 1:
            v = 0
        else:
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
            else:
                v = 0
                for k in range(n - 1, 0, -1):
                    self.alts.append(self.trace + [k])
            self.pos += 1
            self.trace.append(v)
        if record:
            self.inputs.append(('c', v))
        return v

    def conc(self, e):
        """concretise an integer expression by forking on its values"""
        if type(e) is not E:
            return e
        if e.op == 'tab':
            i, vals = e.a
            d = self.dom[i]
            if d != self.dom0[i]:
                self.implicit += 1
            seen = sorted(set(vals[k] for k in range(256) if d >> k & 1))
            for v in seen[:-1]:
                if self.truth(cmp('eq', e, v)):
                    return v
            v = seen[-1]
            if self.truth(cmp('eq', e, v)):
                return v
            raise Infeasible()
        for _ in range(64):
            if not self.sat():
                raise Infeasible()
            # deterministic: always ask the smallest value via z3 minimisation by probing
            v = self._m.eval(toz(e), model_completion=True).as_long()
            lo = 0
            # binary search for the minimal feasible value
            hi = v
            while lo < hi:
                mid = (lo + hi) // 2
                if self.sat(cmp('le', e, mid)):
                    hi = mid
                else:
                    lo = mid + 1
            if self.truth(cmp('eq', e, lo)):
                return lo
        raise Unmodelled('conc: too many values')

    def assume(self, c):
        if type(c) is not E:
            if not c:
                raise Infeasible()
            return
        n = c
        if n.op == 'tt':
            i, m = n.a
            if not self.dom[i] & m:
                raise Infeasible()
            if not self.dom[i] & ~m:
                return
            self.add(n)
            if i in self.rel and self.pos >= len(self.prefix) and not self.sat():
                raise Infeasible()
            return
        if self.pos >= len(self.prefix) and not self.sat(c):
            raise Infeasible()
        self.known[c.id] = True
        self.add(c)

    def check(self, c, label):
        """assertion: a violation is recorded with its inputs and the path goes on with the assertion assumed"""
        self.nchecks += 1
        if type(c) is not E:
            if c:
                return
            if not self.sat():
                raise Infeasible()
            raise Violation(label, self.model_inputs())
        if self.known.get(c.id) is True:
            return
        if self.pos < len(self.prefix):
            # replayed part of the path: decided (and reported) when it was first explored
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            if v:
                self.known[c.id] = True
                self.add(c)
            return
        if self.sat(bnot(c)):
            self.viols.append((label, self.model_inputs()))
            if not self.sat(c):
                raise Infeasible()
            v = True
            self.known[c.id] = True
            self.add(c)
        else:
            v = False
        self.trace.append(v)
        self.pos += 1


class Cur:
    __slots__ = ('P',)


CUR = Cur()
CUR.P = None


def truth(e):
    if e is True or e is False:
        return e
    return CUR.P.truth(e)
