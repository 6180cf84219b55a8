"""Model registry and the shared helpers used by all models."""
from expr import E, cmp, cast, bnot, band, bor, mk, mk_tt, cpred, cmap, ite, ALL
from path import CUR, truth, RustPanic, Unmodelled, Infeasible, Violation
from vm import (VM, Agg, Closure, CoroV, Ref, DynRef, SliceRef, VecV, PyObj, FnV, CtorV, PyFn, Addr, OPAQUE, D,
                none, some, ok, err, tup, unit, clone, panic)

STOP_CRATES = ['std', 'miette', 'regex', 'regex_automata', 'tracing', 'tracing_core', 'log', 'tokio', 'async_std', 'blocking', 'async_io', 'async_executor',
               'hyper', 'reqwest', 'hashbrown', 'backtrace', 'reflink', 'reflink_copy', 'cacache', 'walkdir', 'rayon', 'rayon_core', 'tar', 'flate2',
               'memchr', 'sha1', 'sha2', 'digest', 'crossbeam', 'dashmap', 'parking_lot', 'supports_color', 'is_terminal', 'tempfile', 'dialoguer', 'console', 'indicatif',
               'xxhash_rust', 'xx_hash', 'clap', 'clap_builder', 'config', 'sentry', 'owo_colors', 'colored']


def aliases(n):
    """the nightly's private module layout of Rc/Arc differs from the documented one"""
    out = [n]
    if 'alloc::sync::' in n:
        out.append(n.replace('alloc::sync::', 'alloc::rcs::arc::'))
    if 'alloc::rc::' in n:
        out.append(n.replace('alloc::rc::', 'alloc::rcs::rc::'))
    return out


def m(*names, needs=(), nobody=False):
    """register a model for exact names"""
    def deco(f):
        for n in names:
            assert n not in VM.models, n
            for a in aliases(n):
                VM.models.setdefault(a, (f, 'nobody' if nobody else '', list(needs)))
        return f
    return deco


def mp(prefix, needs=()):
    """register a model for a name prefix"""
    def deco(f):
        VM.prefix_models.append((prefix, (f, '', list(needs))))
        VM.prefix_models.sort(key=lambda t: -len(t[0]))
        return f
    return deco


# ---------------------------------------------------------------- conditions
def conj(cs):
    r = True
    for c in cs:
        r = band(r, c)
        if r is False:
            return False
    return r


def eqlist(a, b):
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            continue
        c = deq(x, y)
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return mk('conj', tuple(out), 0)


def seqof(v):
    """list of elements of a str/slice/Vec/String/array value or a ref to one; None otherwise"""
    t = type(v)
    if t is SliceRef:
        return v.l[v.o:v.o + v.n]
    if t is VecV:
        return v.l
    return None


def deq(a, b):
    """structural equality (condition)"""
    ta, tb = type(a), type(b)
    if ta in (int, bool, E) and tb in (int, bool, E):
        return cmp('eq', a, b)
    while ta is Ref or ta is DynRef:
        a = a.c[a.i]
        ta = type(a)
    while tb is Ref or tb is DynRef:
        b = b.c[b.i]
        tb = type(b)
    sa, sb = seqof(a), seqof(b)
    if sa is not None and sb is not None:
        return eqlist(sa, sb)
    if ta is Agg and tb is Agg:
        if a.v != b.v:
            return False
        return eqlist(a.f, b.f)
    if sa is not None and tb is Agg:
        return eqlist(sa, b.f)
    if sb is not None and ta is Agg:
        return eqlist(a.f, sb)
    if ta in (int, bool, E) and tb in (int, bool, E):
        return cmp('eq', a, b)
    if ta is float and tb is float:
        return a == b
    if ta is PyObj and tb is PyObj:
        if a is b:
            return True
        if a.k == b.k == 'map':
            return map_eq(a, b)
        return a.k == b.k and a.d == b.d
    if a is b:
        return True
    raise Unmodelled('deq %r %r' % (a, b))


def map_eq(a, b):
    raise Unmodelled('map_eq')


def deep_clone(v):
    """clone of modelled data with value semantics (for containers without a resolvable Clone)"""
    t = type(v)
    if t is Agg:
        return Agg(v.v, [deep_clone(x) for x in v.f], v.t)
    if t is VecV:
        return VecV([deep_clone(x) for x in v.l])
    if t is Closure:
        return Closure([deep_clone(x) for x in v.f], v.inst, v.ck)
    if t is PyIter:
        return v.copy()
    return v


# ---------------------------------------------------------------- strings
def S(v):
    """bytes (list) of a str-like argument"""
    t = type(v)
    if t is SliceRef:
        return v.l[v.o:v.o + v.n]
    if t is VecV:
        return v.l
    if t is Ref or t is DynRef:
        return S(v.c[v.i])
    if t is Agg and len(v.f) >= 1:
        return S(v.f[0])
    raise Unmodelled('S of %r' % (v,))


def mkstr(b):
    return SliceRef(b, 0, len(b))


def pystr(s):
    b = s.encode()
    return SliceRef(b, 0, len(b))


def mkString(b):
    return VecV(list(b))


def isconc(b):
    for x in b:
        if type(x) is E:
            return False
    return True


def conc_bytes(b):
    """concretise every byte (forks)"""
    return bytes(CUR.P.conc(x) for x in b)


def conc_str(v):
    return conc_bytes(S(v)).decode('utf8', 'surrogateescape')


def ascii_only(e):
    if type(e) is E:
        if not truth(cmp('lt', e, 128)):
            raise Unmodelled('symbolic non-ascii byte in str operation')


def dec(l, i):
    """decode char at byte index: (char, len)"""
    b = l[i]
    if type(b) is E:
        ascii_only(b)
        return cast(b, 8, False, 32, False), 1
    if b < 0x80:
        return b, 1
    n = 2 if b < 0xe0 else 3 if b < 0xf0 else 4
    try:
        return ord(bytes(l[i:i + n]).decode('utf8')), n
    except Exception:
        raise Unmodelled('invalid utf8 in str')


def dec_back(l, end):
    """decode char ending at byte index end: (char, len)"""
    i = end - 1
    while type(l[i]) is not E and 0x80 <= l[i] < 0xc0:
        i -= 1
    return dec(l, i)


def enc(c):
    if type(c) is E:
        if not truth(cmp('lt', c, 128)):
            c = CUR.P.conc(c)
        else:
            return [cast(c, 32, False, 8, False)]
    return list(chr(c).encode('utf8', 'surrogatepass'))


def boundary(l, i):
    if i == 0 or i == len(l):
        return True
    if i > len(l):
        return False
    b = l[i]
    if type(b) is E:
        ascii_only(b)
        return True
    return not (0x80 <= b < 0xc0)


# ---------------------------------------------------------------- iterators
class PyIter:
    __slots__ = ('sh', 'i', 'j', 'x')

    def __init__(self, gen, x=None):
        if type(gen) is list:
            self.sh = [None, gen]
        else:
            self.sh = [iter(gen), []]
        self.i = 0
        self.j = None
        self.x = x

    def copy(self):
        r = PyIter.__new__(PyIter)
        r.sh = self.sh
        r.i = self.i
        r.j = self.j
        r.x = self.x
        return r

    def pull(self, n):
        g, buf = self.sh
        while len(buf) <= n:
            if g is None:
                return False
            try:
                buf.append(next(g))
            except StopIteration:
                self.sh[0] = None
                return False
        return True

    def next(self):
        if self.j is not None:
            if self.i >= self.j:
                return None
        elif not self.pull(self.i):
            return None
        self.i += 1
        return (self.sh[1][self.i - 1],)

    def force(self):
        if self.j is None:
            while self.pull(len(self.sh[1])):
                pass
            self.j = len(self.sh[1])

    def next_back(self):
        self.force()
        if self.i >= self.j:
            return None
        self.j -= 1
        return (self.sh[1][self.j],)

    def rest(self):
        self.force()
        return self.sh[1][self.i:self.j]


def opt(x):
    return none() if x is None else some(x[0])


def fresh(x):
    """items handed out by value must not be aliased between clones of an iterator"""
    return x


def it_drain(f, inst_next, it):
    """python generator over a Rust iterator value using its `next` instance"""
    r = Ref([it], 0)
    if type(it) is PyIter:
        while True:
            x = it.next()
            if x is None:
                return
            yield x[0]
    while True:
        o = VM.F[inst_next](r)
        if o.v == 0:
            return
        yield o.f[0]


def iterate(fn, argi, v):
    """iterate an IntoIterator argument whose type is generic arg `argi` (needs 'iter')"""
    t = fn['ga'][argi]
    imp = VM.impls.get((t, 'iter'))
    if imp is None:
        raise Unmodelled('no iter impl for ' + VM.tname(t))
    it = VM.F[imp[0]](v)
    return it_drain(None, imp[1], it)


def impl(fn, argi, what):
    t = fn['ga'][argi]
    return impl_t(t, what)


def impl_t(t, what):
    i = VM.impls.get((t, what))
    if i is None:
        raise Unmodelled('no %s impl for %s' % (what, VM.tname(t)))
    return i


def T(fn, i):
    return VM.types[fn['ga'][i]]


def retty(fn):
    return None


m("<&T as thiserror::display::AsDisplay<'a>>::as_display")(lambda fn, r: D(r))
