"""Symbolic expressions: byte-variable tables (unary functions of one symbolic byte), masks
(unary predicates) and general bit-vector / boolean nodes.  Everything is translated to z3."""
import z3

ALL = (1 << 256) - 1
_intern = {}
_cnt = [0]


class E:
    __slots__ = ('op', 'a', 'w', 'vs', 'z', 'id', 'fn')

    def __init__(self, op, a, w, vs):
        self.op = op
        self.a = a
        self.w = w
        self.vs = vs
        self.z = None
        self.fn = None
        _cnt[0] += 1
        self.id = _cnt[0]

    def __bool__(self):
        raise TypeError('symbolic value used as concrete bool: %r' % (self,))

    def __repr__(self):
        if self.op == 'tt':
            return 'tt(b%d,%s)' % (self.a[0], maskstr(self.a[1]))
        if self.op == 'tab':
            return 'tab(b%d)' % self.a[0]
        return '(%s %s)' % (self.op, ' '.join(map(repr, self.a)))


def maskstr(m):
    return ''.join(chr(i) if 32 < i < 127 else '.' for i in range(256) if m >> i & 1)[:80]


def isE(x):
    return type(x) is E


def mk(op, a, w):
    key = (op, w) + tuple((x.id, 1) if type(x) is E else x for x in a)
    e = _intern.get(key)
    if e is None:
        vs = frozenset().union(*[x.vs for x in a if type(x) is E])
        e = E(op, a, w, vs)
        _intern[key] = e
    return e


IDENT = tuple(range(256))


def bytevar(i):
    key = ('var', i)
    e = _intern.get(key)
    if e is None:
        key2 = ('tab', i, IDENT, 8)
        e = E('tab', (i, IDENT), 8, frozenset((i,)))
        _intern[key] = e
        _intern[key2] = e
    return e


def widevar(name, w):
    key = ('wv', name, w)
    e = _intern.get(key)
    if e is None:
        e = E('wv', (name,), w, frozenset((name,)))
        _intern[key] = e
    return e


# every symbolic byte has a global id standing for (position on the path, initial domain)
_vids = {}
INIT = []
FIRST = []


def varid(pos, mask):
    k = (pos, mask)
    i = _vids.get(k)
    if i is None:
        i = _vids[k] = len(INIT)
        INIT.append(mask)
        FIRST.append((mask & -mask).bit_length() - 1)
    return i


_outs = {}


def outside(i):
    r = _outs.get(i)
    if r is None:
        r = _outs[i] = [k for k in range(256) if not INIT[i] >> k & 1]
    return r


def mk_tab(i, vals, w):
    if INIT[i] != ALL:
        v0 = vals[FIRST[i]]
        l = list(vals)
        for k in outside(i):
            l[k] = v0
        vals = tuple(l)
    if all(v == vals[0] for v in vals):
        return vals[0]
    key = ('tab', i, vals, w)
    e = _intern.get(key)
    if e is None:
        e = E('tab', (i, vals), w, frozenset((i,)))
        _intern[key] = e
    return e


def mk_tt(i, mask):
    mask &= INIT[i]
    if mask == 0:
        return False
    if mask == INIT[i]:
        return True
    key = ('tt', i, mask)
    e = _intern.get(key)
    if e is None:
        e = E('tt', (i, mask), 0, frozenset((i,)))
        _intern[key] = e
    return e


def wrapint(v, w, sg):
    v &= (1 << w) - 1
    if sg and v >> (w - 1):
        v -= 1 << w
    return v


_cache = {}


def pred1(e, f, key=None):
    """predicate f(int)->bool over the value of tab e"""
    i, vals = e.a
    m = 0
    for k in range(256):
        if f(vals[k]):
            m |= 1 << k
    return mk_tt(i, m)


def cpred(name, e, f):
    """cached named unary predicate on int or tab or general"""
    if type(e) is not E:
        return f(e)
    if e.op == 'tab':
        k = (name, e.id)
        r = _cache.get(k)
        if r is None:
            r = pred1(e, f)
            _cache[k] = r
        return r
    raise NotImplementedError('cpred on general expr')


def cmap(name, e, f, w):
    if type(e) is not E:
        return f(e)
    if e.op == 'tab':
        k = (name, e.id, w)
        r = _cache.get(k)
        if r is None:
            i, vals = e.a
            r = mk_tab(i, tuple(f(v) for v in vals), w)
            _cache[k] = r
        return r
    raise NotImplementedError('cmap on general expr ' + repr(e))


_bn = {}


def bnds(e):
    """unsigned interval of an integer expression (sound over all values of its variables), or None for negative constants/tables"""
    if type(e) is not E:
        return (int(e), int(e)) if e >= 0 else None
    r = _bn.get(e.id, 0)
    if r != 0:
        return r
    op, a = e.op, e.a
    full = (0, (1 << e.w) - 1)
    r = full
    if op == 'tab':
        lo = min(a[1])
        r = (lo, max(a[1])) if lo >= 0 else None
    elif op == 'zext':
        r = bnds(a[0])
    elif op in ('add', 'mul', 'sub', 'div', 'rem', 'and', 'shr'):
        x, y = bnds(a[0]), bnds(a[1])
        if x is not None and y is not None:
            if op == 'add' and x[1] + y[1] <= full[1]:
                r = (x[0] + y[0], x[1] + y[1])
            elif op == 'mul' and x[1] * y[1] <= full[1]:
                r = (x[0] * y[0], x[1] * y[1])
            elif op == 'sub' and x[0] >= y[1]:
                r = (x[0] - y[1], x[1] - y[0])
            elif op == 'div' and y[0] > 0:
                r = (x[0] // y[1], x[1] // y[0])
            elif op == 'rem' and y[0] > 0:
                r = (0, min(x[1], y[1] - 1))
            elif op == 'and':
                r = (0, min(x[1], y[1]))
            elif op == 'shr' and y[0] == y[1] and y[0] < e.w:
                r = (x[0] >> y[0], x[1] >> y[0])
    elif op == 'ite':
        x, y = bnds(a[1]), bnds(a[2])
        r = (min(x[0], y[0]), max(x[1], y[1])) if x is not None and y is not None else full
    _bn[e.id] = r
    return r


_PY = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
}


def cmp(op, a, b, sg=False):
    ta = type(a) is E
    tb = type(b) is E
    f = _PY[op]
    if not ta and not tb:
        return f(a, b)
    if ta and a.op == 'tab' and not tb:
        k = (op, a.id, b)
        r = _cache.get(k)
        if r is None:
            r = pred1(a, lambda v: f(v, b))
            _cache[k] = r
        return r
    if tb and b.op == 'tab' and not ta:
        k = (op, a, b.id, 'r')
        r = _cache.get(k)
        if r is None:
            r = pred1(b, lambda v: f(a, v))
            _cache[k] = r
        return r
    if ta and tb and a.op == 'tab' and b.op == 'tab' and a.a[0] == b.a[0]:
        va, vb = a.a[1], b.a[1]
        m = 0
        for k in range(256):
            if f(va[k], vb[k]):
                m |= 1 << k
        return mk_tt(a.a[0], m)
    if a is b:
        return op in ('eq', 'le', 'ge')
    if ta and a.w == 0 or tb and b.w == 0:
        # booleans
        if op == 'eq':
            return bnot(bxor(a, b))
        if op == 'ne':
            return bxor(a, b)
        raise NotImplementedError
    w = a.w if ta else b.w
    x = bnds(a)
    y = bnds(b) if x is not None else None
    if y is not None and (not sg or op in ('eq', 'ne') or x[1] < 1 << (w - 1) and y[1] < 1 << (w - 1)):
        if op in ('eq', 'ne'):
            if x[1] < y[0] or y[1] < x[0]:
                return op == 'ne'
        elif op in ('lt', 'ge'):
            if x[1] < y[0]:
                return op == 'lt'
            if x[0] >= y[1]:
                return op == 'ge'
        else:
            if x[1] <= y[0]:
                return op == 'le'
            if x[0] > y[1]:
                return op == 'gt'
    if op == 'ne':
        return bnot(mk('eq', (a, b), 0) if not ta or not tb or a.id <= b.id else mk('eq', (b, a), 0))
    if op == 'eq':
        if ta and tb and a.id > b.id:
            a, b = b, a
        return mk('eq', (a, b), 0)
    if op == 'gt':
        a, b, op = b, a, 'lt'
    elif op == 'ge':
        a, b, op = b, a, 'le'
    return mk(('s' if sg else 'u') + op, (a, b), 0)


def bnot(a):
    if type(a) is not E:
        return not a
    if a.op == 'tt':
        return mk_tt(a.a[0], ALL & ~a.a[1])
    if a.op == 'not':
        return a.a[0]
    return mk('not', (a,), 0)


def band(a, b):
    if type(a) is not E:
        return b if a else False
    if type(b) is not E:
        return a if b else False
    if a is b:
        return a
    if a.op == 'tt' and b.op == 'tt' and a.a[0] == b.a[0]:
        return mk_tt(a.a[0], a.a[1] & b.a[1])
    return mk('and', (a, b), 0)


def bor(a, b):
    if type(a) is not E:
        return True if a else b
    if type(b) is not E:
        return True if b else a
    if a is b:
        return a
    if a.op == 'tt' and b.op == 'tt' and a.a[0] == b.a[0]:
        return mk_tt(a.a[0], a.a[1] | b.a[1])
    return mk('or', (a, b), 0)


def bxor(a, b):
    if type(a) is not E:
        return bnot(b) if a else b
    if type(b) is not E:
        return bnot(a) if b else a
    if a is b:
        return False
    if a.op == 'tt' and b.op == 'tt' and a.a[0] == b.a[0]:
        return mk_tt(a.a[0], a.a[1] ^ b.a[1])
    return mk('xor', (a, b), 0)


def ite(c, a, b, w):
    if type(c) is not E:
        return a if c else b
    if a is b or (type(a) is not E and type(b) is not E and a == b):
        return a
    return mk('ite', (c, a, b), w)


def _pyarith(op, a, b, w, sg):
    if op == 'add':
        r = a + b
    elif op == 'sub':
        r = a - b
    elif op == 'mul':
        r = a * b
    elif op == 'and':
        r = a & b
    elif op == 'or':
        r = a | b
    elif op == 'xor':
        r = a ^ b
    elif op == 'shl':
        r = a << (b % w)
    elif op == 'shr':
        r = a >> (b % w)
    elif op == 'div':
        r = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            r = -r
    elif op == 'rem':
        r = abs(a) % abs(b)
        if a < 0:
            r = -r
    else:
        raise NotImplementedError(op)
    return wrapint(r, w, sg)


def arith(op, a, b, w, sg):
    ta = type(a) is E
    tb = type(b) is E
    if not ta and not tb:
        return _pyarith(op, a, b, w, sg)
    if ta and a.op == 'tab' and not tb:
        k = (op, a.id, b, w, sg)
        r = _cache.get(k)
        if r is None:
            r = mk_tab(a.a[0], tuple(_pyarith(op, v, b, w, sg) for v in a.a[1]), w)
            _cache[k] = r
        return r
    if tb and b.op == 'tab' and not ta and op not in ('div', 'rem'):
        k = (op, a, b.id, w, sg, 'r')
        r = _cache.get(k)
        if r is None:
            r = mk_tab(b.a[0], tuple(_pyarith(op, a, v, w, sg) for v in b.a[1]), w)
            _cache[k] = r
        return r
    if op == 'add' and not tb and b == 0:
        return a
    if op == 'add' and not ta and a == 0:
        return b
    if op == 'sub' and not tb and b == 0:
        return a
    if op == 'mul' and not tb and b == 1:
        return a
    nm = op
    if sg and op in ('div', 'rem', 'shr'):
        nm = 's' + op
    return mk(nm, (a, b), w)


def overflow(op, a, b, w, sg):
    """overflow flag of a op b"""
    ta = type(a) is E
    tb = type(b) is E

    def f(x, y):
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y
        return r != wrapint(r, w, sg)
    if not ta and not tb:
        return f(a, b)
    if ta and a.op == 'tab' and not tb:
        k = ('ov' + op, a.id, b, w, sg)
        r = _cache.get(k)
        if r is None:
            r = pred1(a, lambda v: f(v, b))
            _cache[k] = r
        return r
    if tb and b.op == 'tab' and not ta:
        return pred1(b, lambda v: f(a, v))
    x = bnds(a)
    y = bnds(b) if x is not None else None
    if y is not None:
        M = 1 << (w - 1 if sg else w)
        if x[1] < M and y[1] < M:
            if op == 'add' and x[1] + y[1] < M or op == 'mul' and x[1] * y[1] < M or op == 'sub' and (sg or x[0] >= y[1]):
                return False
    return mk('ov' + op + ('s' if sg else 'u'), (a, b, w), 0)


def cast(e, fw, fsg, tw, tsg):
    if type(e) is not E:
        return wrapint(int(e), tw, tsg)
    if e.w == 0:
        if e.op == 'tt':
            return mk_tab(e.a[0], tuple((e.a[1] >> k) & 1 for k in range(256)), tw)
        return mk('ite', (e, 1, 0), tw)
    if e.op == 'tab':
        k = ('cast', e.id, tw, tsg)
        r = _cache.get(k)
        if r is None:
            r = mk_tab(e.a[0], tuple(wrapint(v, tw, tsg) for v in e.a[1]), tw)
            _cache[k] = r
        return r
    if tw == fw:
        return e
    if tw < fw:
        return mk('trunc', (e,), tw)
    return mk('sext' if fsg else 'zext', (e,), tw)


# ---------------------------------------------------------------- z3 translation
_zvars = {}


def zvar(i):
    v = _zvars.get(i)
    if v is None:
        v = z3.BitVec('b%d' % i, 8)
        _zvars[i] = v
    return v


def _intervals(mask):
    out = []
    i = 0
    while i < 256:
        if mask >> i & 1:
            j = i
            while j < 255 and mask >> (j + 1) & 1:
                j += 1
            out.append((i, j))
            i = j + 1
        else:
            i += 1
    return out


def _in(v, mask):
    parts = []
    for lo, hi in _intervals(mask):
        if lo == hi:
            parts.append(v == lo)
        elif lo == 0:
            parts.append(z3.ULE(v, hi))
        elif hi == 255:
            parts.append(z3.UGE(v, lo))
        else:
            parts.append(z3.And(z3.UGE(v, lo), z3.ULE(v, hi)))
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def zc(x, w):
    if type(x) is E:
        return toz(x)
    if w == 0:
        return z3.BoolVal(bool(x))
    return z3.BitVecVal(int(x), w)


def toz(e):
    if e.z is not None:
        return e.z
    op = e.op
    a = e.a
    if op == 'tt':
        v = zvar(a[0])
        m = a[1]
        if bin(m).count('1') > 128:
            z = z3.Not(_in(v, ALL & ~m))
        else:
            z = _in(v, m)
    elif op == 'tab':
        v = zvar(a[0])
        vals = a[1]
        w = e.w
        base = v if w == 8 else (z3.ZeroExt(w - 8, v) if w > 8 else z3.Extract(w - 1, 0, v))
        groups = {}
        M = (1 << w) - 1
        dmask = INIT[a[0]]
        D = [k for k in range(256) if dmask >> k & 1]
        for k in D:
            groups.setdefault((vals[k] - k) & M, 0)
            groups[(vals[k] - k) & M] |= 1 << k
        cgroups = {}
        for k in D:
            cgroups.setdefault(vals[k] & M, 0)
            cgroups[vals[k] & M] |= 1 << k
        if len(cgroups) < len(groups):
            items = sorted(cgroups.items(), key=lambda t: bin(t[1]).count('1'))
            z = z3.BitVecVal(items[-1][0], w)
            for val, m in items[:-1]:
                z = z3.If(_in(v, m), z3.BitVecVal(val, w), z)
        else:
            items = sorted(groups.items(), key=lambda t: bin(t[1]).count('1'))
            off = items[-1][0]
            z = base if off == 0 else base + z3.BitVecVal(off, w)
            for off, m in items[:-1]:
                z = z3.If(_in(v, m), base + z3.BitVecVal(off, w), z)
    elif op == 'wv':
        z = z3.BitVec(a[0], e.w) if e.w else z3.Bool(a[0])
    elif op == 'not':
        z = z3.Not(toz(a[0]))
    elif op == 'and' and e.w == 0:
        z = z3.And(zc(a[0], 0), zc(a[1], 0))
    elif op == 'or' and e.w == 0:
        z = z3.Or(zc(a[0], 0), zc(a[1], 0))
    elif op == 'xor' and e.w == 0:
        z = z3.Xor(zc(a[0], 0), zc(a[1], 0))
    elif op == 'conj':
        z = z3.And(*[zc(x, 0) for x in a])
    elif op == 'ite':
        z = z3.If(zc(a[0], 0), zc(a[1], e.w), zc(a[2], e.w))
    elif op in ('zext', 'sext', 'trunc'):
        x = toz(a[0])
        n = a[0].w
        if op == 'zext':
            z = z3.ZeroExt(e.w - n, x)
        elif op == 'sext':
            z = z3.SignExt(e.w - n, x)
        else:
            z = z3.Extract(e.w - 1, 0, x)
    elif op.startswith('ov'):
        w = a[2]
        x, y = zc(a[0], w), zc(a[1], w)
        o, s = op[2:-1], op[-1] == 's'
        if o == 'add':
            z = z3.Not(z3.BVAddNoOverflow(x, y, s)) if not s else z3.Not(z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)))
        elif o == 'sub':
            z = z3.ULT(x, y) if not s else z3.Not(z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)))
        else:
            z = z3.Not(z3.BVMulNoOverflow(x, y, s)) if not s else z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))
    else:
        w = a[0].w if type(a[0]) is E else a[1].w
        x, y = zc(a[0], w), zc(a[1], w)
        if op in ('shl', 'shr', 'sshr'):
            w = e.w
            x, y = zc(a[0], w), zc(a[1], w)
            if y.size() < w:
                y = z3.ZeroExt(w - y.size(), y)
            elif y.size() > w:
                y = z3.Extract(w - 1, 0, y)
            if w & (w - 1) == 0:
                y = y & z3.BitVecVal(w - 1, w)
        z = {'eq': lambda: x == y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'slt': lambda: x < y, 'sle': lambda: x <= y,
             'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
             'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'shr': lambda: z3.LShR(x, y), 'sshr': lambda: x >> y,
             'div': lambda: z3.UDiv(x, y), 'rem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
    e.z = z
    return z


_inm = {}


def inmask(v, mask):
    k = (v.get_id(), mask)
    r = _inm.get(k)
    if r is None:
        r = _inm[k] = z3.BoolVal(True) if mask == ALL else _in(v, mask)
    return r
