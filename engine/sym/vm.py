"""Loads the MIR dump and compiles each function to Python on first call."""
import json
import re
import sys
from expr import E, arith, overflow, cmp, cast, bnot, bxor, band, bor, wrapint
from path import CUR, truth, RustPanic, Unmodelled, Infeasible

sys.setrecursionlimit(1000000)


class Agg:
    __slots__ = ('v', 'f', 't')

    def __init__(self, v, f, t=-1):
        self.v = v
        self.f = f
        self.t = t

    def __repr__(self):
        return 'Agg(%s,%s,%r)' % (VM.tname(self.t) if self.t >= 0 else '', self.v, self.f)


class Closure:
    __slots__ = ('f', 'inst', 'ck')

    def __init__(self, f, inst, ck):
        self.f = f
        self.inst = inst
        self.ck = ck

    def __repr__(self):
        return 'Closure#%d' % self.inst


class CoroV:
    __slots__ = ('f', 's', 'v', 'inst')

    def __init__(self, f, n, inst):
        self.f = f
        self.s = [None] * n
        self.v = 0
        self.inst = inst


class Ref:
    __slots__ = ('c', 'i')

    def __init__(self, c, i):
        self.c = c
        self.i = i

    @property
    def f(self):
        return (self, None)

    def __repr__(self):
        return 'Ref(..[%r])' % (self.i,)


class DynRef:
    __slots__ = ('c', 'i', 'vt')

    def __init__(self, c, i, vt):
        self.c = c
        self.i = i
        self.vt = vt

    @property
    def f(self):
        return (self, None)


class SliceRef:
    """&[T], &str, &Path, Box<[T]>, Box<str>: (list, offset, length)"""
    __slots__ = ('l', 'o', 'n')

    def __init__(self, l, o, n):
        self.l = l
        self.o = o
        self.n = n

    @property
    def f(self):
        return (self, None)

    def items(self):
        return self.l[self.o:self.o + self.n]

    def __repr__(self):
        return 'SliceRef(%s)' % show(self.items())


class VecV:
    """Vec<T>, String, PathBuf, OsString"""
    __slots__ = ('l',)

    def __init__(self, l):
        self.l = l

    def __repr__(self):
        return 'VecV(%s)' % show(self.l)


class PyObj:
    """Builtin object of a modelled type"""
    __slots__ = ('k', 'd')

    def __init__(self, k, d):
        self.k = k
        self.d = d

    def __repr__(self):
        return 'PyObj(%s,%r)' % (self.k, self.d)


class FnV:
    __slots__ = ('inst',)

    def __init__(self, inst):
        self.inst = inst


class CtorV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class PyFn:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


class Addr:
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a


class OpaqueT:
    def __repr__(self):
        return 'OPAQUE'


OPAQUE = OpaqueT()


def show(l):
    l = l[:80]
    if all(type(x) is int and 0 <= x < 256 for x in l):
        try:
            return repr(bytes(l))
        except Exception:
            pass
    return '[' + ', '.join(chr(x) if type(x) is int and 32 < x < 127 else repr(x) for x in l) + ']'


# parsers of one string: a run that made no decision (nor used an earlier one) depends on nothing but its (possibly symbolic) bytes, so its
# result is kept per process and handed out as fresh copies
MEMO = re.compile(r'^<(oro_package_spec|node_semver|url|ssri|kdl)::[\w:]+ as core::str::traits::FromStr>::from_str$|^node_semver::(range::)?(Range|Version)::parse$'
                  r'|^url::Url::parse$|^oro_package_spec::parse_package_spec$')


class NoDup(Exception):
    pass


def dup(v, memo):
    t = type(v)
    if t is Agg:
        return Agg(v.v, [dup(x, memo) for x in v.f], v.t)
    if t is VecV:
        return VecV([x if type(x) is int or type(x) is E else dup(x, memo) for x in v.l])
    if t is int or t is bool or t is str or v is None or t is float or t is E:
        return v
    if t is Ref:
        c = memo.get(id(v.c))
        if c is None:
            if type(v.c) is not list:
                raise NoDup()
            c = memo[id(v.c)] = [None] * len(v.c)
            for i, x in enumerate(v.c):
                c[i] = dup(x, memo)
        return Ref(c, v.i)
    if t is SliceRef and type(v.l) is tuple:
        return v
    raise NoDup()


def memoize(run):
    cache = {}

    def f(a):
        try:
            k = tuple([x if type(x) is int else ~x.id for x in strbytes(a)])
        except (TypeError, AttributeError):
            return run(a)
        r = cache.get(k)
        if r is None:
            P = CUR.P
            n = len(P.trace) + P.implicit
            x = run(a)
            try:
                if len(cache) > 20000:
                    cache.clear()
                cache[k] = dup(x, {}) if len(P.trace) + P.implicit == n else False
            except NoDup:
                cache[k] = False
            return x
        return run(a) if r is False else dup(r, {})
    return f


def strbytes(v):
    t = type(v)
    if t is SliceRef:
        return v.l[v.o:v.o + v.n]
    if t is VecV:
        return v.l
    if t is Ref:
        return strbytes(v.c[v.i])
    raise TypeError


def clone(v):
    """bitwise copy of a Copy aggregate"""
    t = type(v)
    if t is Agg:
        return Agg(v.v, [clone(x) for x in v.f], v.t)
    if t is Closure:
        return Closure([clone(x) for x in v.f], v.inst, v.ck)
    return v


def unit():
    return Agg(0, [])


def none():
    return Agg(0, [])


def some(x):
    return Agg(1, [x])


def ok(x):
    return Agg(0, [x])


def err(x):
    return Agg(1, [x])


def tup(*a):
    return Agg(0, list(a))


def D(r):
    return r.c[r.i]


def IDX(t, k):
    if type(k) is E:
        k = CUR.P.conc(k)
    if type(t) is SliceRef:
        if k >= t.n:
            raise Unmodelled('oob index')
        return t.l, t.o + k
    v = t.c[t.i]
    if type(v) is VecV:
        return v.l, k
    return v.f, k


def CIDX(t, off, fe):
    if type(t) is SliceRef:
        return t.l, (t.o + t.n - off if fe else t.o + off)
    v = t.c[t.i]
    return v.f, (len(v.f) - off if fe else off)


def SUBS(t, a, b, fe):
    if type(t) is SliceRef:
        return SliceRef(t.l, t.o + a, (t.n - a - b) if fe else b - a)
    v = t.c[t.i]
    return SliceRef(v.f, a, (len(v.f) - a - b) if fe else b - a)


def CI(k):
    if type(k) is E:
        return CUR.P.conc(k)
    return k


def eqx(a, b):
    ta = type(a)
    if ta is Ref:
        return type(b) is Ref and a.c is b.c and a.i == b.i
    if ta is SliceRef:
        return type(b) is SliceRef and a.l is b.l and a.o == b.o and a.n == b.n
    if ta is DynRef:
        return a.c is b.c and a.i == b.i
    if ta is FnV:
        return a.inst == b.inst
    if ta is float or ta is int or ta is bool or ta is E:
        return cmp('eq', a, b)
    if ta is Addr:
        return type(b) is Addr and a.a == b.a
    raise Unmodelled('eq of %r %r' % (a, b))


def binop(op, a, b, w, sg):
    if op == 'Eq':
        return eqx(a, b)
    if op == 'Ne':
        return bnot(eqx(a, b))
    o = {'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge'}.get(op)
    if o:
        if type(a) is bool:
            a = int(a)
        if type(b) is bool:
            b = int(b)
        if type(a) in (Ref, SliceRef):
            raise Unmodelled('ptr compare')
        return cmp(o, a, b, sg)
    if w == 0:
        if op == 'BitAnd':
            return band(a, b)
        if op == 'BitOr':
            return bor(a, b)
        if op == 'BitXor':
            return bxor(a, b)
    if w == -1:
        x = {'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'Div': lambda: a / b}[op]()
        return x
    if op == 'Cmp':
        if type(a) is E or type(b) is E:
            if truth(cmp('lt', a, b, sg)):
                return Agg(0, [])
            if truth(cmp('eq', a, b, sg)):
                return Agg(1, [])
            return Agg(2, [])
        return Agg(0 if a < b else 1 if a == b else 2, [])
    if op in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow'):
        o = op[:3].lower()
        return Agg(0, [arith(o, a, b, w, sg), overflow(o, a, b, w, sg)])
    o = {'Add': 'add', 'AddUnchecked': 'add', 'Sub': 'sub', 'SubUnchecked': 'sub', 'Mul': 'mul', 'MulUnchecked': 'mul',
         'Div': 'div', 'Rem': 'rem', 'BitXor': 'xor', 'BitAnd': 'and', 'BitOr': 'or', 'Shl': 'shl', 'ShlUnchecked': 'shl',
         'Shr': 'shr', 'ShrUnchecked': 'shr'}.get(op)
    if o is None:
        raise Unmodelled('binop ' + op)
    if type(a) not in (int, E) or type(b) not in (int, E):
        raise Unmodelled('binop %s on %r %r' % (op, a, b))
    return arith(o, a, b, w, sg)


def unop(op, a, w, sg):
    if op == 'Not':
        if w == 0:
            return bnot(a)
        return arith('xor', a, wrapint(-1, w, sg), w, sg)
    if op == 'Neg':
        if w == -1:
            return -a
        return arith('sub', 0, a, w, sg)
    if op == 'PtrMetadata':
        if type(a) is SliceRef:
            return a.n
        if type(a) is DynRef:
            return a.vt
        return unit()
    raise Unmodelled('unop ' + op)


def sw(v, d, keys, other):
    if type(v) is E:
        for k in keys:
            if truth(cmp('eq', v, k)):
                return d[k]
        return other
    if type(v) is Addr:
        v = v.a
    return d.get(v, other)


def panic(msg):
    raise RustPanic(msg)


class TypeInfo:
    pass


class VMachine:
    def __init__(self):
        self.models = {}
        self.prefix_models = []

    def tname(self, t):
        return self.types[t]['s'] if 0 <= t < len(self.types) else '?'

    def load(self, fn):
        d = json.load(open(fn))
        self.types = d['types']
        self.vts = d['vt']
        self.fns = d['fns']
        self.roots = d['roots']
        self.statics = d['statics']
        self.impls = {}
        for t, w, r in d['impls']:
            self.impls[(t, w)] = r
        n = len(self.fns)
        self.F = [None] * n
        for i in range(n):
            self.F[i] = self._stub(i)
        self.used = set()
        self.constcache = {}
        # coroutine saved-local counts
        for t in self.types:
            if t and t['k'] == 'coroutine':
                m = -1
                for v in t['vf']:
                    for x in v:
                        m = max(m, x)
                t['ns'] = m + 1

    def _stub(self, i):
        def stub(*args):
            f = self.compile(i)
            self.F[i] = f
            return f(*args)
        return stub

    def find_model(self, name):
        m = self.models.get(name)
        if m:
            return m
        for p, m in self.prefix_models:
            if name.startswith(p):
                return m
        return None

    def const(self, v):
        """build a python value for a dumped constant (fresh for aggregates)"""
        t = type(v)
        if t is not list:
            return v
        k = v[0]
        if k == 'str' or k == 'bytes':
            b = bytes.fromhex(v[1])
            return SliceRef(tuple(b), 0, len(b))
        if k == 'u8arr':
            return Agg(0, list(bytes.fromhex(v[1])))
        if k == 'agg':
            return Agg(v[1], [self.const(x) for x in v[3]], v[2])
        if k == 'ref':
            return Ref([self.const(v[1])], 0)
        if k == 'slice':
            l = [self.const(x) for x in v[1]]
            return SliceRef(l, 0, len(l))
        if k == 'fn':
            return FnV(v[1])
        if k == 'clos':
            t = self.types[v[1]]
            return Closure([self.const(x) for x in v[2]], t['i'], t['ck'])
        if k == 'ctor':
            return CtorV(v[1])
        if k == 'callval':
            return PyFn(lambda f, a: self.call_value(f, a.f))
        if k == 'static':
            return ('static', v[1])
        if k == 'addr':
            return Addr(v[1])
        if k == 'float':
            import struct
            if v[2] == 64:
                return struct.unpack('<d', struct.pack('<Q', v[1] & (2**64 - 1)))[0]
            return struct.unpack('<f', struct.pack('<I', v[1] & (2**32 - 1)))[0]
        if k == 'unresolved':
            return PyFn(lambda *a: (_ for _ in ()).throw(Unmodelled('unresolved ' + v[1])))
        return OPAQUE

    def static(self, i):
        P = CUR.P
        r = P.statics.get(i)
        if r is None:
            r = Ref([self.const(self.statics[i]['v'])], 0)
            P.statics[i] = r
        return r

    # ------------------------------------------------------------------ calling
    def call(self, inst, *args):
        return self.F[inst](*args)

    def call_value(self, f, args):
        ref = None
        while True:
            t = type(f)
            if t is Closure:
                if f.ck == 'FnOnce':
                    return self.F[f.inst](f, *args)
                return self.F[f.inst](ref if ref is not None else Ref([f], 0), *args)
            if t is FnV:
                return self.F[f.inst](*args)
            if t is CtorV:
                return Agg(f.v, list(args))
            if t is PyFn:
                return f.fn(*args)
            if t is Ref or t is DynRef:
                ref = f if t is Ref else Ref(f.c, f.i)
                f = f.c[f.i]
                continue
            raise Unmodelled('call_value %r' % (f,))

    def virt(self, name, idx, args):
        recv = args[0]
        r = recv
        # Pin<&mut dyn T>, Box<dyn T>, &dyn T
        while type(r) is Agg:
            r = r.f[0]
        if type(r) is not DynRef:
            raise Unmodelled('virtual call %s on %r' % (name, r))
        vt = r.vt
        if type(vt) is PyObj or callable(vt):
            return vt(name, args)
        m = self.vts[vt]['m'][idx]
        thin = Ref(r.c, r.i)
        if type(recv) is Agg:
            a0 = Agg(0, [thin])
        else:
            a0 = thin
        return self.F[m](a0, *args[1:])

    # ------------------------------------------------------------------ compile
    def compile(self, i):
        fn = self.fns[i]
        if fn is None:
            raise Unmodelled('instance %d not dumped' % i)
        self.used.add(i)
        k = fn['k']
        name = fn['n']
        m = self.find_model(name)
        if k == 'virtual':
            vi = fn['vi']
            return lambda *a: self.virt(name, vi, a)
        if m is not None and not (k == 'body' and m[1] == 'nobody'):
            mf = m[0]
            fn['i'] = i
            return lambda *a: mf(fn, *a)
        if k == 'dropglue':
            return lambda r: (self.dropval(D(r)), unit())[1]
        if k == 'cloneshim':
            return lambda r: clone(D(r))
        if k != 'body':
            if k in ('none', 'stop') and name.endswith('{closure#0}') and fn.get('na', 2) == 2:
                def pollstub(p, *a):
                    v = p
                    while type(v) in (Agg, Ref) and not (type(v) is Agg and len(v.f) != 1):
                        v = v.f[0] if type(v) is Agg else v.c[v.i]
                    if type(v) is PyObj and v.k == 'fut':
                        return Agg(0, [v.d[0]()])
                    raise Unmodelled('%s %s on %r' % (k, name, v))
                return pollstub

            def bad(*a):
                raise Unmodelled('%s %s  ga=%s' % (k, name, [self.tname(t) for t in fn['ga']]))
            return bad
        return Compiler(self, i, fn).compile()


VM = VMachine()


class Compiler:
    def __init__(self, vm, i, fn):
        self.vm = vm
        self.i = i
        self.fn = fn
        self.K = []
        self.tmp = 0

    def t(self):
        self.tmp += 1
        return 't%d' % self.tmp

    def k(self, v):
        self.K.append(v)
        return 'K%d' % (len(self.K) - 1)

    def ty(self, t):
        """(w, signed) for scalar ops; w=0 bool, -1 float, -2 other"""
        t = self.vm.types[t]
        k = t['k']
        if k == 'int':
            return t['w'], bool(t['sg'])
        if k == 'bool':
            return 0, False
        if k == 'char':
            return 32, False
        if k == 'float':
            return -1, False
        return -2, False

    # -- places
    def slot(self, pl, out):
        """returns (list, idx, state) ; state: None | ('ptr', tmp) when last proj is a deref | ('fat', tmp)"""
        cur = ('L', str(pl[0]))
        state = None
        for p in pl[1:]:
            if p == '*':
                t = self.t()
                if state and state[0] == 'fat':
                    raise Unmodelled('deref of fat')
                out.append('%s=%s[%s]' % (t, cur[0], cur[1]))
                cur = ('%s.c' % t, '%s.i' % t)
                state = ('ptr', t)
            elif type(p) is int:
                t = self.t()
                out.append('%s=%s[%s]' % (t, cur[0], cur[1]))
                cur = ('%s.f' % t, str(p))
                state = None
            else:
                k = p[0]
                if k == 'v':
                    continue
                if k == 'cs' or k == 'cu':
                    t = self.t()
                    out.append('%s=%s[%s]' % (t, cur[0], cur[1]))
                    cur = ('%s.%s' % (t, 's' if k == 'cs' else 'f'), str(p[1]))
                    state = None
                elif k == 'i':
                    if state and state[0] in ('ptr', 'fat'):
                        a, b = self.t(), self.t()
                        out.append('%s,%s=IDX(%s,L[%d])' % (a, b, state[1], p[1]))
                        cur = (a, b)
                    else:
                        t = self.t()
                        out.append('%s=%s[%s]' % (t, cur[0], cur[1]))
                        cur = ('%s.f' % t, 'CI(L[%d])' % p[1])
                    state = None
                elif k == 'c':
                    a, b = self.t(), self.t()
                    if state and state[0] in ('ptr', 'fat'):
                        out.append('%s,%s=CIDX(%s,%d,%d)' % (a, b, state[1], p[1], p[2]))
                    else:
                        out.append('%s,%s=CIDX(Ref(%s,%s),%d,%d)' % (a, b, cur[0], cur[1], p[1], p[2]))
                    cur = (a, b)
                    state = None
                elif k == 's':
                    a = self.t()
                    if state and state[0] in ('ptr', 'fat'):
                        out.append('%s=SUBS(%s,%d,%d,%d)' % (a, state[1], p[1], p[2], p[3]))
                    else:
                        out.append('%s=SUBS(Ref(%s,%s),%d,%d,%d)' % (a, cur[0], cur[1], p[1], p[2], p[3]))
                    state = ('fat', a)
                    cur = None
        return cur, state

    def read(self, pl, out):
        if len(pl) == 1:
            return 'L[%d]' % pl[0]
        cur, state = self.slot(pl, out)
        if cur is None:
            raise Unmodelled('read of fat place')
        return '%s[%s]' % cur

    def operand(self, o, out):
        k = o[0]
        if k == 'm':
            return self.read(o[1], out)
        if k == 'c':
            return 'clone(%s)' % self.read(o[1], out)
        v = o[1]
        if type(v) is bool or type(v) is int:
            return repr(v)
        if v[0] == 'static':
            return 'VM.static(%d)' % v[1]
        c = self.vm.const(v)
        if type(c) in (Agg, Closure):
            return 'clone(%s)' % self.k(c)
        return self.k(c)

    def store(self, pl, expr, out):
        if len(pl) == 1:
            out.append('L[%d]=%s' % (pl[0], expr))
            return
        if not expr.isidentifier():
            t = self.t()
            out.append('%s=%s' % (t, expr))
            expr = t
        cur, state = self.slot(pl, out)
        out.append('%s[%s]=%s' % (cur[0], cur[1], expr))

    def rvalue(self, r, out):
        k = r[0]
        if k in ('m', 'c', 'k'):
            return self.operand(r, out)
        if k == 'ref':
            cur, state = self.slot(r[1], out)
            if state is not None:
                return state[1]
            return 'Ref(%s,%s)' % cur
        if k == 'agg':
            ops = [self.operand(o, out) for o in r[3]]
            return 'Agg(%d,[%s],%d)' % (r[1], ','.join(ops), r[2])
        if k == 'arr':
            return 'Agg(0,[%s])' % ','.join(self.operand(o, out) for o in r[1])
        if k == 'closure':
            t = self.vm.types[r[1]]
            return 'Closure([%s],%d,%r)' % (','.join(self.operand(o, out) for o in r[2]), t['i'], t['ck'])
        if k == 'corou':
            t = self.vm.types[r[1]]
            return 'CoroV([%s],%d,%d)' % (','.join(self.operand(o, out) for o in r[2]), t['ns'], t['i'])
        if k == 'disc':
            t = self.vm.types[r[2]]
            x = self.read(r[1], out)
            if t['k'] == 'adt' and t['u'] == 1:
                ds = [v[1] for v in t['vs']]
                if ds != list(range(len(ds))):
                    return '%s[%s.v]' % (self.k(tuple(ds)), x)
                return '%s.v' % x
            if t['k'] == 'coroutine':
                return '%s.v' % x
            return '0'
        if k == 'bin':
            a = self.operand(r[2], out)
            b = self.operand(r[3], out)
            w, sg = self.ty(r[4])
            op = r[1]
            if w > 0 and op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                x, y = self.t(), self.t()
                out.append('%s=%s;%s=%s' % (x, a, y, b))
                s = {'Eq': '==', 'Ne': '!=', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>='}[op]
                return '(%s%s%s) if type(%s) is int and type(%s) is int else binop(%r,%s,%s,%d,%s)' % (x, s, y, x, y, op, x, y, w, sg)
            return 'binop(%r,%s,%s,%d,%s)' % (op, a, b, w, sg)
        if k == 'un':
            a = self.operand(r[2], out)
            w, sg = self.ty(r[3])
            return 'unop(%r,%s,%d,%s)' % (r[1], a, w, sg)
        if k == 'cast':
            a = self.operand(r[2], out)
            ck = r[1]
            if ck in ('noop', 'boxderef', 'upcast'):
                return a
            if ck == 'int':
                fw, fs = self.ty(r[3])
                tw, ts = self.ty(r[4])
                ft = self.vm.types[r[3]]
                if ft['k'] == 'adt':
                    ds = [v[1] for v in ft['vs']]
                    return 'wrapint(%s[%s.v],%d,%s)' % (self.k(tuple(ds)), a, tw, ts)
                return 'cast(%s,%d,%s,%d,%s)' % (a, fw, fs, tw, ts)
            if ck == 'dyn':
                return 'mkdyn(%s,%d)' % (a, r[5])
            if ck == 'unslice':
                return 'unslice(%s)' % a
            if ck == 'transmute':
                return 'transmute(%s,%d,%d)' % (a, r[3], r[4])
            if ck == 'IntToFloat':
                return 'float(%s)' % a
            if ck == 'FloatToInt':
                return 'ftoi(%s,%d)' % (a, r[4])
            if ck == 'PointerExposeProvenance':
                return 'addrof(%s)' % a
            if ck == 'FloatToFloat':
                return a
            raise Unmodelled('cast ' + ck)
        if k == 'rep':
            a = self.operand(r[1], out)
            return 'Agg(0,[clone(x) for x in [%s]*%d])' % (a, r[2])
        if k == 'rawptr':
            ops = [self.operand(o, out) for o in r[1]]
            return 'rawptr(%s)' % ','.join(ops)
        raise Unmodelled('rvalue ' + k)

    def compile(self):
        fn = self.fn
        bbs = fn['bb']
        n = len(bbs)
        preds = [0] * n
        preds[0] = 2
        succs = []
        for b in bbs:
            if b is None:
                succs.append([])
                continue
            t = b[1]
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [x[1] for x in t[3]] + [t[4]]
            elif k == 'call':
                s = [t[4]] if t[4] >= 0 else []
            elif k == 'drop':
                s = [t[3]]
            elif k == 'assert':
                s = [t[4]]
            else:
                s = []
            succs.append(s)
            for x in s:
                preds[x] += 1
        src = []
        for b in range(n):
            if bbs[b] is None:
                continue
            if b != 0 and preds[b] == 1:
                # merged into predecessor unless predecessor is a switch
                continue_merge = True
            else:
                continue_merge = False
            if continue_merge and not self._switch_target(b, bbs):
                continue
            out = []
            cur = b
            seen = set()
            while True:
                seen.add(cur)
                try:
                    nxt = self.block(bbs[cur], out)
                except Unmodelled as e:
                    out.append('raise Unmodelled(%r)' % str(e))
                    nxt = None
                if nxt is None:
                    break
                if preds[nxt] == 1 and nxt != 0 and nxt not in seen:
                    cur = nxt
                    continue
                out.append('return %d' % nxt)
                break
            src.append('def b%d(L):\n' % b + '\n'.join('  ' + x for x in out) + '\n')
        g = dict(Agg=Agg, Closure=Closure, CoroV=CoroV, Ref=Ref, clone=clone, IDX=IDX, CIDX=CIDX, SUBS=SUBS, CI=CI,
                 binop=binop, unop=unop, cast=cast, wrapint=wrapint, truth=truth, sw=sw, panic=panic, VM=self.vm, F=self.vm.F,
                 mkdyn=mkdyn, unslice=unslice, transmute=transmute, rawptr=rawptr, cno=cno, ftoi=ftoi, Unmodelled=Unmodelled,
                 callop=callop, addrof=addrof, vmdrop=vmdrop)
        for i, v in enumerate(self.K):
            g['K%d' % i] = v
        code = '\n'.join(src)
        name = fn['n']
        if self.vm.showcode and self.vm.showcode in name:
            print('#', name, fn.get('l'))
            print(code)
        exec(compile(code, '<mir %s>' % name, 'exec'), g)
        B = [g.get('b%d' % b) for b in range(n)]
        nl = len(fn['lt'])
        na = fn['na']
        P = CUR
        spread = fn['spread']
        lt = [self.vm.types[t] for t in fn['lt']]
        pad = [self.zst(t) for t in lt[1 + na:]]
        ret0 = self.zst(lt[0])
        loc = fn.get('l', '')

        def run(*args):
            if len(args) != na:
                raise Unmodelled('arity %s: %d vs %d' % (name, len(args), na))
            L = [ret0]
            L += args
            L += pad
            bb = 0
            P.P.steps += 1
            if P.P.steps > 3000000:
                nonterm(name)
            cnt = 0
            while bb >= 0:
                bb = B[bb](L)
                cnt += 1
                if cnt > 200000:
                    nonterm(name)
            return L[0]
        if na == 1 and MEMO.search(name):
            return memoize(run)
        if self.vm.trace:
            def traced(*args):
                print('>>' + '  ' * P.P.env.get('depth', 0), name, args)
                P.P.env['depth'] = P.P.env.get('depth', 0) + 1
                r = run(*args)
                P.P.env['depth'] -= 1
                print('<<' + '  ' * P.P.env.get('depth', 0), name, r)
                return r
            return traced
        return run

    def zst(self, t, depth=0):
        """initial value of locals of zero-sized types (assignments to them are optimised away in library MIR)"""
        k = t['k']
        if depth > 4:
            return None
        if k == 'tuple':
            v = [self.zst(self.vm.types[x], depth + 1) for x in t['e']]
            return Agg(0, v) if all(x is not None for x in v) else None
        if k == 'fndef':
            return None
        if k == 'adt' and t['u'] == 0 and len(t['vs']) == 1 and not t['vs'][0][2]:
            return Agg(0, [])
        if k == 'adt' and t['u'] == 1 and t['ga']:
            n = t['n']
            g = [self.vm.types[x] for x in t['ga']]
            never = [x['k'] == 'never' or x.get('n') == 'core::convert::Infallible' for x in g]
            if n == 'core::option::Option' and never[0]:
                return Agg(0, [])
            if n == 'core::result::Result' and len(g) == 2 and any(never):
                z = self.zst(g[0 if never[1] else 1], depth + 1)
                if z is not None:
                    return Agg(0 if never[1] else 1, [z])
        return None

    def _switch_target(self, b, bbs):
        # is b reached from a switch (cannot be merged)?
        for x in bbs:
            if x is None:
                continue
            t = x[1]
            if t[0] == 'switch' and (b == t[4] or any(y[1] == b for y in t[3])):
                return True
        return False

    def block(self, b, out):
        for s in b[0]:
            k = s[0]
            if k == '=':
                r = s[2]
                self.store(s[1], self.rvalue(r, out), out)
            elif k == 'sd':
                x = self.read(s[1], out)
                out.append('%s.v=%d' % (x, s[2]))
            elif k == 'cno':
                out.append('cno(%s,%s,%s)' % tuple(self.operand(x, out) for x in s[1:4]))
        t = b[1]
        k = t[0]
        if k == 'goto':
            return t[1]
        if k == 'ret':
            out.append('return -1')
            return None
        if k == 'switch':
            v = self.operand(t[1], out)
            w, sg = self.ty(t[2])
            if w == 0:
                # bool
                d = dict((x[0], x[1]) for x in t[3])
                f = d.get(0, t[4])
                tr = d.get(1, t[4])
                out.append('return %d if truth(%s) else %d' % (tr, v, f))
                return None
            d = dict((x[0], x[1]) for x in t[3])
            if len(d) == 1:
                (kk, tt), = d.items()
                x = self.t()
                out.append('%s=%s' % (x, v))
                out.append('if type(%s) is int: return %d if %s==%d else %d' % (x, tt, x, kk, t[4]))
                v = x
            out.append('return sw(%s,%s,%s,%d)' % (v, self.k(d), self.k(tuple(d)), t[4]))
            return None
        if k == 'call':
            fo = t[1]
            args = [self.operand(a, out) for a in t[2]]
            if fo[0] == 'k' and type(fo[1]) is list and fo[1][0] == 'fn':
                callee = 'F[%d](%s)' % (fo[1][1], ','.join(args))
            elif fo[0] == 'k' and type(fo[1]) is list and fo[1][0] == 'callval':
                callee = 'VM.call_value(%s,%s.f)' % (args[0], args[1])
            elif fo[0] == 'k' and type(fo[1]) is list and fo[1][0] == 'ctor':
                callee = 'Agg(%d,[%s])' % (fo[1][1], ','.join(args))
            else:
                f = self.operand(fo, out)
                callee = 'VM.call_value(%s,(%s))' % (f, ''.join(a + ',' for a in args))
            if t[4] < 0:
                out.append(callee)
                out.append('raise Unmodelled("diverging call returned")')
                return None
            self.store(t[3], callee, out)
            return t[4]
        if k == 'drop':
            if t[4] != -1:
                cur, state = self.slot(t[1], out)
                out.append('vmdrop(%d,%s)' % (int(t[4]), state[1] if state else 'Ref(%s,%s)' % cur))
            return t[3]
        if k == 'assert':
            c = self.operand(t[1], out)
            out.append('if truth(%s) is not %s: panic(%r)' % (c, bool(t[2]), 'assert: ' + t[3] + ' at ' + t[5]))
            return t[4]
        if k == 'unreach':
            out.append('raise Unmodelled("unreachable reached in %s")' % self.fn['n'].replace('"', "'"))
            return None
        if k == 'tail':
            raise Unmodelled('tail')
        raise Unmodelled('terminator %r' % (t,))


def addrof(v):
    """integer address of a pointer: every allocation gets its own 1 MiB window"""
    t = type(v)
    if t is Addr:
        return v.a
    if t is SliceRef:
        l, o = v.l, v.o
    elif t is Ref or t is DynRef:
        l, o = v.c, v.i
    else:
        raise Unmodelled('address of %r' % (v,))
    d = CUR.P.env.setdefault('addrs', {})
    e = d.get(id(l))
    if e is None:
        e = d[id(l)] = (0x10000000 + 0x100000 * len(d), l)
    return e[0] + o


def callop(*a):
    raise Unmodelled('callop')


def vmdrop(inst, r):
    VM.F[inst](r)


def mkdyn(v, vt):
    t = type(v)
    if t is Ref:
        return DynRef(v.c, v.i, vt)
    if t is Agg and len(v.f) >= 1:
        # Pin<Box<T>> etc.
        return Agg(v.v, [mkdyn(v.f[0], vt)] + v.f[1:], v.t)
    raise Unmodelled('mkdyn %r' % (v,))


def unslice(v):
    t = type(v)
    if t is Ref:
        x = v.c[v.i]
        if type(x) is Agg:
            return SliceRef(x.f, 0, len(x.f))
        if type(x) is VecV:
            return SliceRef(x.l, 0, len(x.l))
    if t is SliceRef:
        return v
    raise Unmodelled('unslice %r' % (v,))


def transmute(v, ft, tt):
    a, b = VM.types[ft], VM.types[tt]
    t = type(v)
    if t in (Ref, SliceRef, DynRef, FnV, Closure, PyObj, VecV):
        return v
    if a['k'] in ('int', 'char') and b['k'] in ('int', 'char'):
        return cast(v, a.get('w', 32), bool(a.get('sg')), b.get('w', 32), bool(b.get('sg')))
    if t in (int, E) and b['k'] == 'int' and a['s'].startswith('pattern_type!'):
        return v
    if b['k'] == 'int' and a['k'] == 'adt' and t is Agg and 'NonZero' in a['s']:
        while type(v) is Agg:
            v = v.f[0]
        return v
    if a['k'] == 'adt' and a['u'] == 0 and t is Agg and len(v.f) == 1:
        return transmute(v.f[0], ft, tt) if type(v.f[0]) in (Ref, SliceRef, DynRef) else v.f[0]
    if a['s'] == b['s']:
        return v
    if a['k'] == 'int' and b['k'] == 'array' and t in (int, E):
        n = b['n'] if 'n' in b else a['w'] // 8
        return Agg(0, [cast(arith('shr', v, 8 * i, a['w'], False), a['w'], False, 8, False) for i in range(a['w'] // 8)])
    if b['k'] == 'int' and a['k'] == 'array' and t is Agg:
        r = 0
        for i, x in enumerate(v.f):
            r = arith('or', r, arith('shl', cast(x, 8, False, b['w'], False), 8 * i, b['w'], False), b['w'], False)
        return r
    if b['k'] == 'int' and a['k'] == 'adt' and t is Agg:
        return a['vs'][v.v][1]
    if a['k'] == 'adt' and b['k'] == 'adt' and t is Agg:
        return v
    if a['k'] == 'int' and t in (int, E) and 'Option<core::num::nonzero::NonZero' in b['s']:
        return none() if truth(cmp('eq', v, 0)) else some(Agg(0, [Agg(0, [v])]))
    if a['k'] == 'adt' and b['k'] == 'int' and t in (int, E) and 'NonZero' in a['s']:
        return v
    raise Unmodelled('transmute %s -> %s (%r)' % (a['s'], b['s'], v))


def cno(a, b, n):
    n = CUR.P.conc(n)
    if type(a) is SliceRef and type(b) is SliceRef:
        b.l[b.o:b.o + n] = a.l[a.o:a.o + n]
    elif n == 1 and type(a) is Ref and type(b) is Ref:
        b.c[b.i] = a.c[a.i]
    elif n:
        raise Unmodelled('copy_nonoverlapping %r %r' % (a, b))


def rawptr(p, m):
    if type(p) is SliceRef:
        return SliceRef(p.l, p.o, m if type(m) is int else p.n)
    if type(p) is Ref and type(m) is int:
        return SliceRef(p.c, p.i, m)
    if type(p) is Ref and type(m) is Agg:
        return p
    raise Unmodelled('rawptr %r %r' % (p, m))


def ftoi(v, t):
    t = VM.types[t]
    x = int(v)
    w = t['w']
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if t['sg'] else (0, (1 << w) - 1)
    return max(lo, min(hi, x))


def nonterm(name):
    from path import Violation
    if not CUR.P.sat():
        raise Infeasible()
    raise Violation('nontermination', CUR.P.model_inputs())


VM.trace = False
VM.showcode = None
