"""HashMap / HashSet / BTreeMap / BTreeSet / IndexMap / IndexSet as insertion-ordered (or sorted) association lists."""
from mcore import *
from mvec import eq_elem, cmp_elems, deep_clone, PRIM, ordering
import mcore


class MapD:
    """entries: list of [key, value] lists (cells); kind: 'hash' | 'btree' | 'index'"""
    __slots__ = ('e', 'kind')

    def __init__(self, kind, e=None):
        self.kind = kind
        self.e = e or []

    def __repr__(self):
        return 'Map%r' % (self.e,)


def MV(r):
    v = r
    while type(v) in (Ref, DynRef):
        v = D(v)
    if type(v) is not PyObj or v.k != 'map':
        raise Unmodelled('not a map: %r' % (v,))
    return v.d


def keyeq(fn, kt, qt, a, b):
    """condition key a == query b (both values)"""
    g = fn['ga']
    if type(a) in (int, bool, E):
        return cmp('eq', a, b)
    if kt == qt:
        i = VM.impls.get((kt, 'eq'))
        t = VM.types[kt]
        if i is not None and t['k'] not in PRIM and t.get('n') not in ('alloc::string::String',):
            return VM.F[i](Ref([a], 0), Ref([b], 0))
        if i is None and t['k'] not in PRIM:
            raise Unmodelled('no Eq for map key ' + t['s'])
    from mvec import plain_eq
    return plain_eq(a, b)


def find(fn, mp_, kt, qt, q):
    for k, ent in enumerate(mp_.e):
        if truth(keyeq(fn, kt, qt, ent[0], q)):
            return k
    return None


def klt(fn, kt, a, b):
    t = VM.types[kt]
    if t['k'] in ('int', 'char'):
        return truth(cmp('lt', a, b, bool(t.get('sg'))))
    i = VM.impls.get((kt, 'cmp'))
    if i is None:
        raise Unmodelled('no Ord for btree key ' + t['s'])
    return VM.F[i](Ref([a], 0), Ref([b], 0)).v == 0


def insert(fn, d, kt, k, v):
    """returns old value or None"""
    p = find(fn, d, kt, kt, k)
    if p is not None:
        o = d.e[p][1]
        d.e[p][1] = v
        return some(o)
    add(fn, d, kt, [k, v])
    return none()


def add(fn, d, kt, ent):
    if d.kind == 'btree':
        p = 0
        while p < len(d.e) and klt(fn, kt, d.e[p][0], ent[0]):
            p += 1
        d.e.insert(p, ent)
        return p
    d.e.append(ent)
    return len(d.e) - 1


def order(d):
    """iteration order: HashMap order is unspecified; both directions are explored when the harness asks for it"""
    if d.kind == 'hash' and len(d.e) > 1 and CUR.P.env.get('hash_order'):
        if CUR.P.choose(2):
            return d.e[::-1]
    return list(d.e)


def newmap(kind):
    return PyObj('map', MapD(kind))


def defmap(kind, base, gparams, setp):
    """gparams: generic param rendering"""


KINDS = []


def reg(kind, tn, ga, mg, setlike):
    """tn: type path; ga: list of generic spellings used in trait impls; mg: spellings in inherent impls"""
    inh = ['%s::%s::' % (tn, x) for x in mg]
    tr = ['<%s%s as ' % (tn, x) for x in ga]
    refs = ["<&'a %s%s as " % (tn, x) for x in ga]
    mrefs = ["<&'a mut %s%s as " % (tn, x) for x in ga]

    def I(*ns):
        return [p + n for p in inh for n in ns]

    def TR(*ns):
        return [p + n for p in tr for n in ns]
    N = [('eq', 0), ('cmp', 0)]

    m(*(I('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher', 'new_in') + TR('core::default::Default>::default')))(lambda fn, *a: newmap(kind))
    m(*I('len'))(lambda fn, r: len(MV(r).e))
    m(*I('is_empty'))(lambda fn, r: len(MV(r).e) == 0)
    m(*I('reserve', 'shrink_to_fit'))(lambda fn, *a: unit())

    @m(*I('clear'))
    def _(fn, r):
        MV(r).e.clear()
        return unit()

    def qt(fn):
        # borrowed-query type: last generic arg when present, else the key type
        return fn['ga'][-1]

    @m(*I('contains_key', 'contains'), needs=N)
    def _(fn, r, q):
        d = MV(r)
        g = fn['ga']
        return find(fn, d, g[0], qt(fn), D(q) if type(q) is Ref else q) is not None

    def val_of(d, p):
        return Ref(d.e[p], 0 if setlike else 1)

    @m(*I('get', 'get_mut'), needs=N)
    def _(fn, r, q):
        d = MV(r)
        p = find(fn, d, fn['ga'][0], qt(fn), D(q) if type(q) is Ref else q)
        return none() if p is None else some(val_of(d, p))

    @m(*I('get_key_value'), needs=N)
    def _(fn, r, q):
        d = MV(r)
        p = find(fn, d, fn['ga'][0], qt(fn), D(q) if type(q) is Ref else q)
        return none() if p is None else some(tup(Ref(d.e[p], 0), Ref(d.e[p], 1)))

    @m(*I('get_full'), needs=N)
    def _(fn, r, q):
        d = MV(r)
        p = find(fn, d, fn['ga'][0], qt(fn), D(q) if type(q) is Ref else q)
        return none() if p is None else some(tup(p, Ref(d.e[p], 0), Ref(d.e[p], 1)))

    @m(*I('get_index_of'), needs=N)
    def _(fn, r, q):
        d = MV(r)
        p = find(fn, d, fn['ga'][0], qt(fn), D(q) if type(q) is Ref else q)
        return none() if p is None else some(p)

    @m(*I('get_index'))
    def _(fn, r, i):
        d = MV(r)
        i = CUR.P.conc(i)
        if i >= len(d.e):
            return none()
        return some(Ref(d.e[i], 0) if setlike else tup(Ref(d.e[i], 0), Ref(d.e[i], 1)))

    if setlike:
        @m(*I('insert'), needs=N)
        def _(fn, r, k):
            d = MV(r)
            if find(fn, d, fn['ga'][0], fn['ga'][0], k) is not None:
                return False
            add(fn, d, fn['ga'][0], [k, unit()])
            return True

        @m(*I('replace'), needs=N)
        def _(fn, r, k):
            d = MV(r)
            p = find(fn, d, fn['ga'][0], fn['ga'][0], k)
            if p is not None:
                o = d.e[p][0]
                d.e[p][0] = k
                return some(o)
            add(fn, d, fn['ga'][0], [k, unit()])
            return none()
    else:
        @m(*I('insert'), needs=N)
        def _(fn, r, k, v):
            return insert(fn, MV(r), fn['ga'][0], k, v)

        @m(*I('insert_full'), needs=N)
        def _(fn, r, k, v):
            o = insert(fn, MV(r), fn['ga'][0], k, v)
            return tup(find(fn, MV(r), fn['ga'][0], fn['ga'][0], k), o)

    @m(*I('remove', 'swap_remove', 'shift_remove', 'take'), needs=N)
    def _(fn, r, q):
        d = MV(r)
        p = find(fn, d, fn['ga'][0], qt(fn), D(q) if type(q) is Ref else q)
        nm = fn['n'].split('::')[-1]
        if p is None:
            return False if setlike and nm != 'take' else none()
        ent = d.e[p]
        if kind == 'index' and nm in ('remove', 'swap_remove'):
            last = d.e.pop()
            if p < len(d.e):
                d.e[p] = last
        else:
            d.e.pop(p)
        if setlike:
            return some(ent[0]) if nm == 'take' else True
        return some(ent[1])

    @m(*I('remove_entry', 'swap_remove_entry', 'shift_remove_entry'), needs=N)
    def _(fn, r, q):
        d = MV(r)
        p = find(fn, d, fn['ga'][0], qt(fn), D(q) if type(q) is Ref else q)
        if p is None:
            return none()
        ent = d.e.pop(p)
        return some(tup(ent[0], ent[1]))

    def g_items(d):
        return [Ref(x, 0) if setlike else tup(Ref(x, 0), Ref(x, 1)) for x in order(d)]

    def it_(fn, r):
        return PyIter(g_items(MV(r)))
    m(*I('iter', 'iter_mut'))(it_)
    for p in refs + mrefs + [x.replace("&'a ", "&") for x in refs] + [x.replace("&'a ", "&'_ ") for x in refs]:
        nm = p + 'core::iter::traits::collect::IntoIterator>::into_iter'
        if nm not in VM.models:
            m(nm)(it_)

    @m(*TR('core::iter::traits::collect::IntoIterator>::into_iter'))
    def _(fn, v):
        return PyIter([x[0] if setlike else tup(x[0], x[1]) for x in order(MV(v))])
    m(*I('keys'))(lambda fn, r: PyIter([Ref(x, 0) for x in order(MV(r))]))
    m(*I('values', 'values_mut'))(lambda fn, r: PyIter([Ref(x, 1) for x in order(MV(r))]))
    m(*I('into_keys'))(lambda fn, r: PyIter([x[0] for x in order(MV(r))]))
    m(*I('into_values'))(lambda fn, r: PyIter([x[1] for x in order(MV(r))]))

    @m(*I('drain'))
    def _(fn, r, *a):
        d = MV(r)
        x = order(d)
        d.e.clear()
        return PyIter([e[0] if setlike else tup(e[0], e[1]) for e in x])

    @m(*I('retain'))
    def _(fn, r, f):
        d = MV(r)
        cell = Ref([f], 0)
        keep = []
        for ent in order(d):
            a = [Ref(ent, 0)] if setlike else [Ref(ent, 0), Ref(ent, 1)]
            if truth(VM.call_value(cell, a)):
                keep.append(ent)
        d.e[:] = [x for x in d.e if any(x is y for y in keep)]
        return unit()

    FI = 'core::iter::traits::collect::FromIterator<%s>>::from_iter'
    EX = 'core::iter::traits::collect::Extend<%s>>::extend'
    # type arg index of the iterator = number of container params
    for item in (['(K, V)'] if not setlike else ['T', 'K']):
        for suffix, ext in ((FI % item, False), (EX % item, True)):
            for p in tr:
                nm = p + suffix
                if nm in VM.models:
                    continue

                def mkx(nm=nm, ext=ext):
                    @m(nm, needs=N + [('iter', k) for k in (1, 2, 3)])
                    def _(fn, *a):
                        d = MV(a[0]) if ext else MapD(kind)
                        g = fn['ga']
                        it = a[-1]
                        for x in iterate(fn, len(g) - 1, it):
                            if setlike:
                                if find(fn, d, g[0], g[0], x) is None:
                                    add(fn, d, g[0], [x, unit()])
                            else:
                                insert(fn, d, g[0], x.f[0], x.f[1])
                        return unit() if ext else PyObj('map', d)
                mkx()

    if not setlike:
        for p in tr:
            nm = p + "core::iter::traits::collect::Extend<(&'a K, &'a V)>>::extend"
            m(nm, needs=N + [('iter', k) for k in (1, 2, 3)])(lambda fn, *a: (_ for _ in ()).throw(Unmodelled('extend by ref')))

    for p in tr:
        for item in (['[(K, V); N]'] if not setlike else ['[T; N]', '[K; N]']):
            nm = p + 'core::convert::From<%s>>::from' % item
            if nm in VM.models:
                continue

            @m(nm, needs=N)
            def _(fn, a):
                d = MapD(kind)
                for x in a.f:
                    if setlike:
                        if find(fn, d, fn['ga'][0], fn['ga'][0], x) is None:
                            add(fn, d, fn['ga'][0], [x, unit()])
                    else:
                        insert(fn, d, fn['ga'][0], x.f[0], x.f[1])
                return PyObj('map', d)

    @m(*TR('core::clone::Clone>::clone'), needs=[('clone', 0), ('clone', 1)])
    def _(fn, r):
        g = fn['ga']

        def cl(ti, x):
            t = VM.types[g[ti]]
            if t['k'] in PRIM:
                return x
            i = VM.impls.get((g[ti], 'clone'))
            return VM.F[i](Ref([x], 0)) if i is not None else deep_clone(x)
        return PyObj('map', MapD(kind, [[cl(0, x[0]), unit() if setlike else cl(1, x[1])] for x in MV(r).e]))

    @m(*(TR('core::cmp::PartialEq>::eq') + (['<%s<K, V1, S1> as core::cmp::PartialEq<%s<K, V2, S2>>>::eq' % (tn, tn), '<%s<T, S1> as core::cmp::PartialEq<%s<T, S2>>>::eq' % (tn, tn)] if kind == 'index' else [])),
       needs=[('eq', 0), ('eq', 1)])
    def _(fn, a, b):
        x, y = MV(a), MV(b)
        if len(x.e) != len(y.e):
            return False
        g = fn['ga']
        r = True
        for k, v in x.e:
            p = find(fn, y, g[0], g[0], k)
            if p is None:
                return False
            if not setlike:
                i = VM.impls.get((g[1], 'eq'))
                w = y.e[p][1]
                if i is not None and VM.types[g[1]]['k'] not in PRIM:
                    r = band(r, VM.F[i](Ref([v], 0), Ref([w], 0)))
                else:
                    r = band(r, deq(v, w))
                if r is False:
                    return False
        return r

    for p in tr:
        for nm in (p + "core::ops::index::Index<&Q>>::index", p + "core::ops::index::IndexMut<&Q>>::index_mut"):
            @m(nm, needs=N)
            def _(fn, r, q):
                d = MV(r)
                g = fn['ga']
                p_ = find(fn, d, g[0], g[2] if 'indexmap' in fn['n'] else g[1], D(q) if type(q) is Ref else q)
                if p_ is None:
                    panic('no entry found for key')
                return val_of(d, p_)

    # set algebra
    if setlike:
        @m(*I('is_subset'), needs=N)
        def _(fn, a, b):
            x, y = MV(a), MV(b)
            return all(find(fn, y, fn['ga'][0], fn['ga'][0], e[0]) is not None for e in x.e)

        @m(*I('difference'), needs=N)
        def _(fn, a, b):
            x, y = MV(a), MV(b)
            return PyIter([Ref(e, 0) for e in order(x) if find(fn, y, fn['ga'][0], fn['ga'][0], e[0]) is None])

        @m(*I('union'), needs=N)
        def _(fn, a, b):
            x, y = MV(a), MV(b)
            return PyIter([Ref(e, 0) for e in x.e] + [Ref(e, 0) for e in y.e if find(fn, x, fn['ga'][0], fn['ga'][0], e[0]) is None])

        @m(*I('intersection'), needs=N)
        def _(fn, a, b):
            x, y = MV(a), MV(b)
            return PyIter([Ref(e, 0) for e in x.e if find(fn, y, fn['ga'][0], fn['ga'][0], e[0]) is not None])

    if kind == 'btree':
        m(*I('first_key_value'))(lambda fn, r: some(tup(Ref(MV(r).e[0], 0), Ref(MV(r).e[0], 1))) if MV(r).e else none())
        m(*I('last_key_value'))(lambda fn, r: some(tup(Ref(MV(r).e[-1], 0), Ref(MV(r).e[-1], 1))) if MV(r).e else none())
        m(*I('pop_first'))(lambda fn, r: (lambda e: some(e[0] if setlike else tup(e[0], e[1])))(MV(r).e.pop(0)) if MV(r).e else none())
        m(*I('pop_last'))(lambda fn, r: (lambda e: some(e[0] if setlike else tup(e[0], e[1])))(MV(r).e.pop()) if MV(r).e else none())
        m(*I('first'))(lambda fn, r: some(Ref(MV(r).e[0], 0)) if MV(r).e else none())
        m(*I('last'))(lambda fn, r: some(Ref(MV(r).e[-1], 0)) if MV(r).e else none())

    # entry API: Entry enum { Occupied(PyObj), Vacant(PyObj) }
    if not setlike:
        @m(*I('entry'), needs=N)
        def _(fn, r, k):
            d = MV(r)
            p = find(fn, d, fn['ga'][0], fn['ga'][0], k)
            # enum variant order differs: std hash: Occupied, Vacant ; btree: Vacant, Occupied ; indexmap: Occupied, Vacant
            occ, vac = (1, 0) if kind == 'btree' else (0, 1)
            if p is not None:
                return Agg(occ, [PyObj('occ', (d, d.e[p]))])
            return Agg(vac, [PyObj('vac', (d, k, fn, fn['ga'][0]))])


def qt_index(g):
    # Index<&Q> for Map<K, V, S>: type args K, [Q], V, S in impl order K, Q, V, S
    return g[1]


def vac_insert(o, v):
    d, k, fn, kt = o.d
    p = add(fn, d, kt, [k, v])
    return Ref(d.e[p], 1)


def take(fn, d, p):
    if 'indexmap' in fn['n'] and 'shift' not in fn['n']:
        d.e[p], d.e[-1] = d.e[-1], d.e[p]
        d.e.pop()
    else:
        d.e.pop(p)


ENT = []
for b, ga in (('std::collections::hash::map', "<'a, K, V>"), ('alloc::collections::btree::map::entry', "<'a, K, V, A>"), ('indexmap::map::core::entry', "<'a, K, V>"), ('indexmap::map::core', "<'a, K, V>"), ('indexmap::map::core::raw', "<'a, K, V>"), ('std::collections::hash::map', "<'a, K, V, A>")):
    isb = 'btree' in b
    E_ = '%s::Entry::%s::' % (b, ga)

    def mke(E_=E_, isb=isb, b=b, ga=ga):
        OCC = 1 if isb else 0

        def orw(f):
            def g(fn, e, *a):
                if e.v == OCC:
                    return Ref(e.f[0].d[1], 1)
                return vac_insert(e.f[0], f(fn, e, *a))
            return g
        m(E_ + 'or_insert')(orw(lambda fn, e, v: v))
        m(E_ + 'or_insert_with')(orw(lambda fn, e, f: VM.call_value(f, [])))
        m(E_ + 'or_insert_with_key')(orw(lambda fn, e, f: VM.call_value(f, [Ref([e.f[0].d[1]], 0)])))
        m(E_ + 'or_default', needs=[('default', 1)])(orw(lambda fn, e: VM.F[impl(fn, 1, 'default')]()))

        @m(E_ + 'and_modify')
        def _(fn, e, f):
            if e.v == OCC:
                VM.call_value(f, [Ref(e.f[0].d[1], 1)])
            return e

        @m(E_ + 'key')
        def _(fn, e):
            e = D(e)
            return Ref(e.f[0].d[1], 0) if e.v == OCC else Ref([e.f[0].d[1]], 0)
        O = '%s::OccupiedEntry::%s::' % (b, ga)
        W = '%s::VacantEntry::%s::' % (b, ga)
        m(O + 'get', O + 'get_mut')(lambda fn, o: Ref(D(o).d[1], 1))
        m(O + 'into_mut')(lambda fn, o: Ref(o.d[1], 1))
        m(O + 'key')(lambda fn, o: Ref(D(o).d[1], 0))

        @m(O + 'insert')
        def _(fn, o, v):
            ent = D(o).d[1]
            x = ent[1]
            ent[1] = v
            return x

        @m(O + 'remove', O + 'swap_remove', O + 'shift_remove')
        def _(fn, o):
            d, ent = o.d
            p = [i for i, x in enumerate(d.e) if x is ent][0]
            take(fn, d, p)
            return ent[1]

        @m(O + 'remove_entry')
        def _(fn, o):
            d, ent = o.d
            p = [i for i, x in enumerate(d.e) if x is ent][0]
            take(fn, d, p)
            return tup(ent[0], ent[1])
        m(W + 'insert')(lambda fn, o, v: vac_insert(o, v))
        m(W + 'key')(lambda fn, o: Ref([D(o).d[1]], 0))
        m(W + 'into_key')(lambda fn, o: o.d[1])
    if E_ + 'or_insert' not in VM.models:
        mke()

reg('hash', 'std::collections::hash::map::HashMap', ['<K, V, S>', '<K, V>', '<K, V, S, A>', '<K, V, std::hash::random::RandomState>'], ['<K, V, S>', '<K, V>', '<K, V, S, A>', '<K, V, std::hash::random::RandomState>'], False)
reg('hash', 'std::collections::hash::set::HashSet', ['<T, S>', '<T>', '<T, S, A>', '<T, std::hash::random::RandomState>'], ['<T, S>', '<T>', '<T, S, A>', '<T, std::hash::random::RandomState>'], True)
reg('btree', 'alloc::collections::btree::map::BTreeMap', ['<K, V, A>', '<K, V>'], ['<K, V, A>', '<K, V>'], False)
reg('btree', 'alloc::collections::btree::set::BTreeSet', ['<T, A>', '<T>'], ['<T, A>', '<T>'], True)
reg('index', 'indexmap::map::IndexMap', ['<K, V, S>', '<K, V>'], ['<K, V, S>', '<K, V>'], False)
reg('index', 'indexmap::set::IndexSet', ['<T, S>', '<T>'], ['<T, S>', '<T>'], True)


def map_eq(a, b):
    raise Unmodelled('map_eq')


m('<std::hash::random::RandomState as core::default::Default>::default', 'std::hash::random::RandomState::new')(lambda fn: unit())
