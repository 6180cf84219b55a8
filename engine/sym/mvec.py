"""Models of Vec / slices / arrays / iterators / smart pointers / mem / intrinsics / numbers."""
from mcore import *
from mstr import range_of, range_bounds, ordering, cmp_lists
from expr import arith, overflow, wrapint, bxor, cmp
import functools

# ---------------------------------------------------------------- PyIter types
ITERS = [
    "core::slice::iter::Iter<'a, T>", "core::slice::iter::IterMut<'a, T>", "core::slice::iter::Windows<'a, T>", "core::slice::iter::Chunks<'a, T>",
    "core::slice::iter::ChunksExact<'a, T>", "core::slice::iter::Split<'a, T, P>",
    "alloc::vec::into_iter::IntoIter<T, A>", "alloc::vec::drain::Drain<'_, T, A>", "core::array::iter::IntoIter<T, N>",
    "core::str::iter::Chars<'a>", "core::str::iter::CharIndices<'a>", "core::str::iter::Bytes<'_>", "core::str::iter::Bytes<'a>",
    "core::str::iter::Split<'a, P>", "core::str::iter::RSplit<'a, P>", "core::str::iter::SplitN<'a, P>", "core::str::iter::RSplitN<'a, P>",
    "core::str::iter::SplitInclusive<'a, P>", "core::str::iter::SplitTerminator<'a, P>", "core::str::iter::Matches<'a, P>", "core::str::iter::MatchIndices<'a, P>",
    "core::str::iter::SplitWhitespace<'a>", "core::str::iter::SplitAsciiWhitespace<'a>", "core::str::iter::Lines<'a>",
    "core::char::ToLowercase", "core::char::ToUppercase", "alloc::string::Drain<'_>", "alloc::string::Drain<'a>",
    "std::path::Components<'a>", "std::path::Iter<'a>", "std::path::Ancestors<'a>",
]
for k in ('Iter', 'IterMut', 'Keys', 'Values', 'ValuesMut', 'IntoIter', 'IntoKeys', 'IntoValues', 'Drain'):
    for base in ('std::collections::hash::map', 'alloc::collections::btree::map', 'indexmap::map::iter', 'indexmap::map'):
        for ga in ("<'a, K, V>", "<'_, K, V>", '<K, V>', '<K, V, A>', "<'a, K, V, A>"):
            ITERS.append('%s::%s%s' % (base, k, ga))
    for base in ('std::collections::hash::set', 'alloc::collections::btree::set', 'indexmap::set::iter', 'indexmap::set'):
        for ga in ("<'a, K>", "<'_, K>", '<K>', '<K, A>', "<'a, T>", "<'_, T>", '<T>', '<T, A>', '<T, N>'):
            ITERS.append('%s::%s%s' % (base, k, ga))
for ga in ("<'a, T>", "<'_, T>", '<T, A>', '<T>', "<'a, T, A>"):
    for k in ('Iter', 'IterMut', 'IntoIter'):
        ITERS += ['alloc::collections::vec_deque::%s::%s%s' % (x, k, ga) for x in ('iter', 'iter_mut', 'into_iter')]
        ITERS += ['alloc::collections::binary_heap::%s%s' % (k, ga)]

IT = 'core::iter::traits::iterator::Iterator>::'
DE = 'core::iter::traits::double_ended::DoubleEndedIterator>::'


def itof(r):
    v = D(r) if type(r) is Ref else r
    if type(v) is not PyIter:
        raise Unmodelled('iterator model applied to %r' % (v,))
    return v


def i_next(fn, r):
    return opt(itof(r).next())


def i_next_back(fn, r):
    return opt(itof(r).next_back())


def i_size_hint(fn, r):
    it = itof(r)
    it.force()
    n = it.j - it.i
    return tup(n, some(n))


def i_count(fn, it):
    return len(it.rest())


def i_last(fn, it):
    return opt(it.next_back())


def i_nth(fn, r, n):
    it = itof(r)
    for _ in range(CUR.P.conc(n)):
        if it.next() is None:
            return none()
    return opt(it.next())


def i_nth_back(fn, r, n):
    it = itof(r)
    for _ in range(CUR.P.conc(n)):
        if it.next_back() is None:
            return none()
    return opt(it.next_back())


def i_fold(fn, it, acc, f):
    cell = Ref([f], 0)
    it = it if type(it) is PyIter else itof(it)
    while True:
        x = it.next()
        if x is None:
            return acc
        acc = VM.call_value(cell, [acc, x[0]])


def i_rfold(fn, it, acc, f):
    cell = Ref([f], 0)
    while True:
        x = it.next_back()
        if x is None:
            return acc
        acc = VM.call_value(cell, [acc, x[0]])


def i_for_each(fn, it, f):
    cell = Ref([f], 0)
    while True:
        x = it.next()
        if x is None:
            return unit()
        VM.call_value(cell, [x[0]])


def i_all(fn, r, f):
    it = itof(r)
    cell = Ref([f], 0)
    while True:
        x = it.next()
        if x is None:
            return True
        if not truth(VM.call_value(cell, [x[0]])):
            return False


def i_any(fn, r, f):
    it = itof(r)
    cell = Ref([f], 0)
    while True:
        x = it.next()
        if x is None:
            return False
        if truth(VM.call_value(cell, [x[0]])):
            return True


def i_find(fn, r, f):
    it = itof(r)
    cell = Ref([f], 0)
    while True:
        x = it.next()
        if x is None:
            return none()
        if truth(VM.call_value(cell, [Ref([x[0]], 0)])):
            return some(x[0])


def i_find_map(fn, r, f):
    it = itof(r)
    cell = Ref([f], 0)
    while True:
        x = it.next()
        if x is None:
            return none()
        o = VM.call_value(cell, [x[0]])
        if o.v == 1:
            return o


def i_position(fn, r, f):
    it = itof(r)
    cell = Ref([f], 0)
    n = 0
    while True:
        x = it.next()
        if x is None:
            return none()
        if truth(VM.call_value(cell, [x[0]])):
            return some(n)
        n += 1


def i_rposition(fn, r, f):
    it = itof(r)
    cell = Ref([f], 0)
    n = len(it.rest())
    while True:
        x = it.next_back()
        if x is None:
            return none()
        n -= 1
        if truth(VM.call_value(cell, [x[0]])):
            return some(n)


def i_rfind(fn, r, f):
    it = itof(r)
    cell = Ref([f], 0)
    while True:
        x = it.next_back()
        if x is None:
            return none()
        if truth(VM.call_value(cell, [Ref([x[0]], 0)])):
            return some(x[0])


def i_advance_by(fn, r, n):
    it = itof(r)
    n = CUR.P.conc(n)
    for k in range(n):
        if it.next() is None:
            return err(Agg(0, [Agg(0, [n - k])]))
    return ok(unit())


def tryfold(fn, nxt, acc, f):
    o = VM.types[fn['ga'][-1]]['s'].startswith('core::option::Option') or VM.types[fn['ga'][-1]]['s'].startswith('std::option::Option')
    cell = Ref([f], 0)
    while True:
        x = nxt()
        if x is None:
            return some(acc) if o else Agg(0, [acc])
        r = VM.call_value(cell, [acc, x[0]])
        if r.v != (1 if o else 0):
            return r
        acc = r.f[0]


def i_try_fold(fn, r, acc, f):
    return tryfold(fn, itof(r).next, acc, f)


def i_try_rfold(fn, r, acc, f):
    return tryfold(fn, itof(r).next_back, acc, f)


def i_clone(fn, r):
    return itof(r).copy()


IM = {'next': i_next, 'size_hint': i_size_hint, 'count': i_count, 'last': i_last, 'nth': i_nth, 'fold': i_fold, 'for_each': i_for_each,
      'all': i_all, 'any': i_any, 'find': i_find, 'find_map': i_find_map, 'position': i_position, 'rposition': i_rposition, 'advance_by': i_advance_by, 'try_fold': i_try_fold}
DM = {'next_back': i_next_back, 'nth_back': i_nth_back, 'rfold': i_rfold, 'rfind': i_rfind, 'try_rfold': i_try_rfold}
_seen = set()
for t in ITERS:
    if t in _seen:
        continue
    _seen.add(t)
    for k, f in IM.items():
        m('<%s as %s%s' % (t, IT, k))(f)
    for k, f in DM.items():
        m('<%s as %s%s' % (t, DE, k))(f)
    m('<%s as core::clone::Clone>::clone' % t)(i_clone)
    m('<%s as core::iter::traits::exact_size::ExactSizeIterator>::len' % t)(lambda fn, r: len(itof(r).rest()))
m("<core::slice::iter::Iter<'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len", "<core::slice::iter::IterMut<'_, T> as core::iter::traits::exact_size::ExactSizeIterator>::len",
  'core::iter::traits::exact_size::ExactSizeIterator::len')(lambda fn, r: len(itof(r).rest()))
m('<core::slice::iter::Iter<\'_, T> as core::clone::Clone>::clone')(i_clone)
m("core::slice::iter::Iter::<'a, T>::as_slice", "alloc::vec::into_iter::IntoIter::<T, A>::as_slice")(lambda fn, r: refs_slice(itof(r)))


def refs_slice(it):
    r = it.rest()
    if not r:
        return SliceRef([], 0, 0)
    if type(r[0]) is Ref:
        return SliceRef(r[0].c, r[0].i, len(r))
    return SliceRef(r, 0, len(r))


# consumers of arbitrary iterators: collect
VT = '<alloc::vec::Vec<T> as '


@m('<alloc::vec::Vec<T> as core::iter::traits::collect::FromIterator<T>>::from_iter', needs=[('iter', 1)])
def _(fn, it):
    return VecV(list(iterate(fn, 1, it)))


@m('<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<T>>::extend', needs=[('iter', 2)])
def _(fn, v, it):
    l = D(v).l
    for x in iterate(fn, 2, it):
        l.append(x)
    return unit()


@m("<alloc::vec::Vec<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend", needs=[('iter', 2)])
def _(fn, v, it):
    l = D(v).l
    for x in iterate(fn, 2, it):
        l.append(clone(D(x)))
    return unit()


@m('<alloc::boxed::Box<[I]> as core::iter::traits::collect::FromIterator<I>>::from_iter', needs=[('iter', 1)])
def _(fn, it):
    l = list(iterate(fn, 1, it))
    return SliceRef(l, 0, len(l))


# Zip: avoid the TrustedRandomAccess specialisation
@m('<core::iter::adapters::zip::Zip<A, B> as core::iter::adapters::zip::ZipImpl<A, B>>::new')
def _(fn, a, b):
    return Agg(0, [a, b, 0, 0])


@m('<core::iter::adapters::zip::Zip<A, B> as core::iter::adapters::zip::ZipImpl<A, B>>::next', needs=[('next', 0), ('next', 1)])
def _(fn, z):
    z = D(z)
    a = VM.F[impl(fn, 0, 'next')](Ref(z.f, 0))
    if a.v == 0:
        return a
    b = VM.F[impl(fn, 1, 'next')](Ref(z.f, 1))
    if b.v == 0:
        return b
    return some(tup(a.f[0], b.f[0]))


@m('<core::iter::adapters::zip::Zip<A, B> as core::iter::traits::iterator::Iterator>::fold', needs=[('next', 0), ('next', 1)])
def _(fn, z, acc, f):
    cell = Ref([f], 0)
    while True:
        a = VM.F[impl(fn, 0, 'next')](Ref(z.f, 0))
        if a.v == 0:
            return acc
        b = VM.F[impl(fn, 1, 'next')](Ref(z.f, 1))
        if b.v == 0:
            return acc
        acc = VM.call_value(cell, [acc, tup(a.f[0], b.f[0])])


@m('<core::iter::adapters::cloned::Cloned<I> as core::iter::traits::iterator::Iterator>::__iterator_get_unchecked')
def _(fn, *a):
    raise Unmodelled('get_unchecked')


# ---------------------------------------------------------------- Vec
V = 'alloc::vec::Vec::<T, A>::'
V0 = 'alloc::vec::Vec::<T>::'


@m(V0 + 'new', '<alloc::vec::Vec<T> as core::default::Default>::default')
def _(fn):
    return VecV([])


@m(V0 + 'with_capacity', V + 'with_capacity_in', V + 'new_in')
def _(fn, *a):
    return VecV([])


@m(V + 'push')
def _(fn, v, x):
    D(v).l.append(x)
    return unit()


@m(V + 'pop')
def _(fn, v):
    l = D(v).l
    return some(l.pop()) if l else none()


@m(V + 'len')
def _(fn, v):
    return len(D(v).l)


@m(V + 'is_empty')
def _(fn, v):
    return len(D(v).l) == 0


@m(V + 'capacity')
def _(fn, v):
    return len(D(v).l)


@m(V + 'clear')
def _(fn, v):
    D(v).l.clear()
    return unit()


@m(V + 'reserve', V + 'reserve_exact', V + 'shrink_to_fit', V + 'shrink_to')
def _(fn, *a):
    return unit()


@m(V + 'truncate')
def _(fn, v, n):
    del D(v).l[CUR.P.conc(n):]
    return unit()


@m(V + 'insert')
def _(fn, v, i, x):
    i = CUR.P.conc(i)
    l = D(v).l
    if i > len(l):
        panic('Vec::insert index')
    l.insert(i, x)
    return unit()


@m(V + 'remove')
def _(fn, v, i):
    i = CUR.P.conc(i)
    l = D(v).l
    if i >= len(l):
        panic('Vec::remove index')
    return l.pop(i)


@m(V + 'swap_remove')
def _(fn, v, i):
    i = CUR.P.conc(i)
    l = D(v).l
    if i >= len(l):
        panic('Vec::swap_remove index')
    x = l[i]
    y = l.pop()
    if i < len(l):
        l[i] = y
    return x


@m(V + 'append')
def _(fn, a, b):
    x = D(b).l
    D(a).l.extend(x)
    x.clear()
    return unit()


@m(V + 'extend_from_slice', needs=[('clone', 0)])
def _(fn, v, s):
    D(v).l.extend(clone_list(fn, 0, S(s)))
    return unit()


@m(V + 'resize')
def _(fn, v, n, x):
    l = D(v).l
    n = CUR.P.conc(n)
    if n < len(l):
        del l[n:]
    else:
        l.extend(deep_clone(x) for _ in range(n - len(l)))
    return unit()


@m(V + 'split_off')
def _(fn, v, n):
    l = D(v).l
    n = CUR.P.conc(n)
    if n > len(l):
        panic('split_off')
    x = l[n:]
    del l[n:]
    return VecV(x)


@m(V + 'retain')
def _(fn, v, f):
    l = D(v).l
    cell = Ref([f], 0)
    l[:] = [x for k, x in enumerate(list(l)) if truth(VM.call_value(cell, [Ref(l, k)]))]
    return unit()


@m(V + 'retain_mut')
def _(fn, v, f):
    l = D(v).l
    cell = Ref([f], 0)
    keep = [k for k in range(len(l)) if truth(VM.call_value(cell, [Ref(l, k)]))]
    l[:] = [l[k] for k in keep]
    return unit()


@m(V + 'drain')
def _(fn, v, r):
    l = D(v).l
    a, b = range_of(fn, r, 2, len(l))
    if a > b or b > len(l):
        panic('drain range')
    x = l[a:b]
    del l[a:b]
    return PyIter(x)


@m(V + 'dedup_by_key', V + 'dedup_by')
def _(fn, *a):
    raise Unmodelled('dedup_by')


@m('alloc::vec::Vec::<T, A>::dedup', needs=[('eq', 0)])
def _(fn, v):
    l = D(v).l
    out = []
    for x in l:
        if out and truth(eq_elem(fn, 0, 0, out[-1], x)):
            continue
        out.append(x)
    l[:] = out
    return unit()


def _vslice(fn, v):
    if type(v) is SliceRef:
        return v
    x = D(v)
    if type(x) is SliceRef:
        return x
    return SliceRef(x.l, 0, len(x.l))


m(V + 'as_slice', V + 'as_mut_slice', V + 'as_ptr', V + 'as_mut_ptr', '<alloc::vec::Vec<T, A> as core::ops::deref::Deref>::deref',
  '<alloc::vec::Vec<T, A> as core::ops::deref::DerefMut>::deref_mut', '<alloc::vec::Vec<T, A> as core::convert::AsRef<[T]>>::as_ref',
  '<alloc::vec::Vec<T, A> as core::convert::AsMut<[T]>>::as_mut',
  '<alloc::vec::Vec<T, A> as core::borrow::Borrow<[T]>>::borrow')(_vslice)
m('<alloc::vec::Vec<T, A> as core::convert::AsRef<alloc::vec::Vec<T, A>>>::as_ref')(lambda fn, v: v)


@m(V + 'into_boxed_slice', '<alloc::boxed::Box<[T], A> as core::convert::From<alloc::vec::Vec<T, A>>>::from', V + 'leak')
def _(fn, v):
    return SliceRef(v.l, 0, len(v.l))


@m('alloc::slice::<impl [T]>::into_vec', '<alloc::vec::Vec<T, A> as core::convert::From<alloc::boxed::Box<[T], A>>>::from')
def _(fn, s):
    return VecV(list(S(s)))


@m('alloc::boxed::box_assume_init_into_vec_unsafe', 'alloc::slice::<impl [T]>::into_vec_x')
def _(fn, b):
    x = D(b)
    if len(x.f) == 2 and x.f[0] is None:
        x = x.f[1].f[0]
    return VecV(list(x.f))


@m('<alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter')
def _(fn, v):
    return PyIter(v.l)


@m("<&'a alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter", "<&'a mut alloc::vec::Vec<T, A> as core::iter::traits::collect::IntoIterator>::into_iter")
def _(fn, v):
    l = D(v).l
    return PyIter([Ref(l, k) for k in range(len(l))])


@m('<alloc::boxed::Box<[I], A> as core::iter::traits::collect::IntoIterator>::into_iter')
def _(fn, s):
    return PyIter(list(S(s)))


# clone helpers ------------------------------------------------------------
PRIM = ('int', 'bool', 'char', 'float', 'ref', 'ptr', 'fndef', 'fnptr')


def clone_list(fn, ti, l):
    t = VM.types[fn['ga'][ti]]
    if t['k'] in PRIM:
        return list(l)
    i = VM.impls.get((fn['ga'][ti], 'clone'))
    if i is None:
        return [deep_clone(x) for x in l]
    return [VM.F[i](Ref([x], 0)) for x in l]


@m('<alloc::vec::Vec<T, A> as core::clone::Clone>::clone', needs=[('clone', 0)])
def _(fn, v):
    return VecV(clone_list(fn, 0, D(v).l))


@m('alloc::slice::<impl [T]>::to_vec', 'alloc::slice::<impl alloc::borrow::ToOwned for [T]>::to_owned', '<alloc::vec::Vec<T> as core::convert::From<&[T]>>::from',
   'alloc::slice::<impl [T]>::to_vec_in', needs=[('clone', 0)])
def _(fn, s):
    return VecV(clone_list(fn, 0, S(s)))


@m('<alloc::boxed::Box<[T], A> as core::clone::Clone>::clone', needs=[('clone', 0)])
def _(fn, s):
    s = D(s) if type(s) is Ref else s
    l = clone_list(fn, 0, S(s))
    return SliceRef(l, 0, len(l))


@m('<alloc::vec::Vec<T> as core::convert::From<&[T; N]>>::from', '<alloc::vec::Vec<T> as core::convert::From<[T; N]>>::from', needs=[('clone', 0)])
def _(fn, a):
    if type(a) is Ref:
        return VecV(clone_list(fn, 0, D(a).f))
    return VecV(list(a.f))


@m('alloc::vec::from_elem', needs=[('clone', 0)])
def _(fn, x, n):
    n = CUR.P.conc(n)
    return VecV([deep_clone(x) for _ in range(n)])


@m('core::array::<impl core::clone::Clone for [T; N]>::clone', needs=[('clone', 0)])
def _(fn, a):
    return Agg(0, clone_list(fn, 0, D(a).f))


# eq helpers ---------------------------------------------------------------
def eq_elem(fn, t1, t2, a, b):
    g = fn['ga']
    if type(a) in (int, bool, E) and type(b) in (int, bool, E):
        return cmp('eq', a, b)
    if len(g) > max(t1, t2) and g[t1] == g[t2]:
        i = VM.impls.get((g[t1], 'eq'))
        if i is not None and VM.types[g[t1]]['k'] not in PRIM:
            return VM.F[i](Ref([a], 0), Ref([b], 0))
    return plain_eq(a, b)


def plain_eq(a, b):
    """equality of two values of different (or primitive) types: structural only where that is what it means"""
    for x in (a, b):
        while type(x) in (Ref, DynRef):
            x = D(x)
        if seqof(x) is None and type(x) not in (int, bool, E, float):
            raise Unmodelled('equality of %r and %r' % (a, b))
    return deq(a, b)


def eq_lists(fn, t1, t2, a, b):
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        r = band(r, eq_elem(fn, t1, t2, x, y))
        if r is False:
            return False
    return r


def seq(v):
    if type(v) is Ref:
        v = D(v)
        if type(v) in (Ref, SliceRef):
            return seq(v)
    if type(v) is Agg:
        return v.f
    return seqof(v)


def _veq(fn, a, b):
    g = fn['ga']
    # element types are the first two non-allocator type args
    return eq_lists(fn, 0, 1, seq(a), seq(b))


for nm in ('alloc::vec::partial_eq::<impl core::cmp::PartialEq<alloc::vec::Vec<U, A2>> for alloc::vec::Vec<T, A1>>',
           'alloc::vec::partial_eq::<impl core::cmp::PartialEq<&[U]> for alloc::vec::Vec<T, A>>',
           'alloc::vec::partial_eq::<impl core::cmp::PartialEq<[U]> for alloc::vec::Vec<T, A>>',
           'alloc::vec::partial_eq::<impl core::cmp::PartialEq<[U; N]> for alloc::vec::Vec<T, A>>',
           'alloc::vec::partial_eq::<impl core::cmp::PartialEq<&[U; N]> for alloc::vec::Vec<T, A>>',
           'core::slice::cmp::<impl core::cmp::PartialEq<[U]> for [T]>',
           'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T; N]>',
           'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for [T]>',
           'core::array::equality::<impl core::cmp::PartialEq<[U]> for [T; N]>',
           'core::array::equality::<impl core::cmp::PartialEq<&[U]> for [T; N]>',
           'core::array::equality::<impl core::cmp::PartialEq<[U; N]> for &[T]>'):
    m(nm + '::eq', needs=[('eq', 0)])(_veq)
    m(nm + '::ne', needs=[('eq', 0)])(lambda fn, a, b: bnot(_veq(fn, a, b)))


m('<alloc::collections::vec_deque::VecDeque<T, A> as core::cmp::PartialEq>::eq', needs=[('eq', 0)])(lambda fn, a, b: eq_lists(fn, 0, 0, seq(a), seq(b)))


def cmp_elems(fn, ti, a, b):
    t = VM.types[fn['ga'][ti]]
    if t['k'] in ('int', 'char', 'bool'):
        return cmp_lists(a, b)
    i = impl(fn, ti, 'cmp')
    for x, y in zip(a, b):
        o = VM.F[i](Ref([x], 0), Ref([y], 0))
        if o.v != 1:
            return o.v - 1
    return (len(a) > len(b)) - (len(a) < len(b))


@m('<alloc::vec::Vec<T, A> as core::cmp::Ord>::cmp', 'core::slice::cmp::<impl core::cmp::Ord for [T]>::cmp', 'core::array::<impl core::cmp::Ord for [T; N]>::cmp', needs=[('cmp', 0)])
def _(fn, a, b):
    return ordering(cmp_elems(fn, 0, seq(a), seq(b)))


@m('<alloc::vec::Vec<T, A1> as core::cmp::PartialOrd<alloc::vec::Vec<T, A2>>>::partial_cmp', 'core::slice::cmp::<impl core::cmp::PartialOrd for [T]>::partial_cmp', needs=[('cmp', 0)])
def _(fn, a, b):
    return some(ordering(cmp_elems(fn, 0, seq(a), seq(b))))


# ---------------------------------------------------------------- indexing
def index(fn, s, r, t):
    k = t['k']
    if k == 'int':
        i = CUR.P.conc(r) if type(r) is E else r
        if i >= s.n:
            panic('index out of bounds: %d of %d' % (i, s.n))
        return Ref(s.l, s.o + i)
    a, b = range_bounds(t, r, s.n)
    if a > b or b > s.n:
        panic('slice index out of range')
    return SliceRef(s.l, s.o + a, b - a)


@m('<alloc::vec::Vec<T, A> as core::ops::index::Index<I>>::index', '<alloc::vec::Vec<T, A> as core::ops::index::IndexMut<I>>::index_mut')
def _(fn, v, i):
    l = D(v).l
    return index(fn, SliceRef(l, 0, len(l)), i, VM.types[fn['ga'][1]])


@m('core::slice::index::<impl core::ops::index::Index<I> for [T]>::index', 'core::slice::index::<impl core::ops::index::IndexMut<I> for [T]>::index_mut')
def _(fn, s, i):
    return index(fn, s, i, VM.types[fn['ga'][1]])


@m('core::array::<impl core::ops::index::Index<I> for [T; N]>::index', 'core::array::<impl core::ops::index::IndexMut<I> for [T; N]>::index_mut')
def _(fn, s, i):
    f = D(s).f
    return index(fn, SliceRef(f, 0, len(f)), i, VM.types[fn['ga'][1]])


@m('<usize as core::slice::index::SliceIndex<[T]>>::index', '<usize as core::slice::index::SliceIndex<[T]>>::index_mut')
def _(fn, i, s):
    return index(fn, s, i, {'k': 'int'})


X = 'core::slice::<impl [T]>::'


@m(X + 'get', X + 'get_mut', X + 'get_unchecked', X + 'get_unchecked_mut')
def _(fn, s, i):
    t = VM.types[fn['ga'][1]]
    un = 'unchecked' in fn['n']
    if t['k'] == 'int':
        i = CUR.P.conc(i) if type(i) is E else i
        if i >= s.n:
            if un:
                raise Unmodelled('get_unchecked oob')
            return none()
        r = Ref(s.l, s.o + i)
    else:
        a, b = range_bounds(t, i, s.n)
        if a > b or b > s.n:
            return none()
        r = SliceRef(s.l, s.o + a, b - a)
    return r if un else some(r)


@m(X + 'len')
def _(fn, s):
    return s.n


@m(X + 'is_empty')
def _(fn, s):
    return s.n == 0


@m(X + 'iter', X + 'iter_mut', "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a [T]>::into_iter",
   "core::slice::iter::<impl core::iter::traits::collect::IntoIterator for &'a mut [T]>::into_iter",
   "core::slice::iter::Iter::<'a, T>::new", "core::slice::iter::IterMut::<'a, T>::new")
def _(fn, s):
    l, o = s.l, s.o
    if s.n > 8:
        return PyIter(Ref(l, k) for k in range(o, o + s.n))
    return PyIter([Ref(l, k) for k in range(o, o + s.n)])


@m(X + 'first', X + 'first_mut')
def _(fn, s):
    return some(Ref(s.l, s.o)) if s.n else none()


@m(X + 'last', X + 'last_mut')
def _(fn, s):
    return some(Ref(s.l, s.o + s.n - 1)) if s.n else none()


@m(X + 'split_first')
def _(fn, s):
    return some(tup(Ref(s.l, s.o), SliceRef(s.l, s.o + 1, s.n - 1))) if s.n else none()


@m(X + 'split_last')
def _(fn, s):
    return some(tup(Ref(s.l, s.o + s.n - 1), SliceRef(s.l, s.o, s.n - 1))) if s.n else none()


@m(X + 'split_at', X + 'split_at_mut', X + 'split_at_unchecked')
def _(fn, s, i):
    i = CUR.P.conc(i)
    if i > s.n:
        panic('split_at')
    return tup(SliceRef(s.l, s.o, i), SliceRef(s.l, s.o + i, s.n - i))


@m(X + 'as_ptr', X + 'as_mut_ptr')
def _(fn, s):
    return s


@m(X + 'contains', needs=[('eq', 0)])
def _(fn, s, x):
    r = False
    for y in S(s):
        r = bor(r, eq_elem(fn, 0, 0, y, D(x) if type(x) is Ref else x))
        if r is True:
            return True
    return r


@m(X + 'starts_with', needs=[('eq', 0)])
def _(fn, a, b):
    if b.n > a.n:
        return False
    return eq_lists(fn, 0, 0, S(a)[:b.n], S(b))


@m(X + 'ends_with', needs=[('eq', 0)])
def _(fn, a, b):
    if b.n > a.n:
        return False
    return eq_lists(fn, 0, 0, S(a)[a.n - b.n:], S(b))


@m(X + 'reverse')
def _(fn, s):
    s.l[s.o:s.o + s.n] = S(s)[::-1]
    return unit()


@m(X + 'swap')
def _(fn, s, a, b):
    a, b = CUR.P.conc(a), CUR.P.conc(b)
    if a >= s.n or b >= s.n:
        panic('swap oob')
    l, o = s.l, s.o
    l[o + a], l[o + b] = l[o + b], l[o + a]
    return unit()


@m(X + 'fill')
def _(fn, s, x):
    for k in range(s.n):
        s.l[s.o + k] = deep_clone(x)
    return unit()


@m(X + 'copy_from_slice', X + 'clone_from_slice')
def _(fn, a, b):
    if a.n != b.n:
        panic('copy_from_slice length mismatch')
    a.l[a.o:a.o + a.n] = S(b)
    return unit()


@m(X + 'windows')
def _(fn, s, n):
    n = CUR.P.conc(n)
    if n == 0:
        panic('windows(0)')
    return PyIter([SliceRef(s.l, s.o + k, n) for k in range(s.n - n + 1)])


@m(X + 'chunks')
def _(fn, s, n):
    n = CUR.P.conc(n)
    if n == 0:
        panic('chunks(0)')
    return PyIter([SliceRef(s.l, s.o + k, min(n, s.n - k)) for k in range(0, s.n, n)])


@m(X + 'chunks_exact')
def _(fn, s, n):
    n = CUR.P.conc(n)
    return PyIter([SliceRef(s.l, s.o + k, n) for k in range(0, s.n - n + 1, n)])


@m(X + 'split')
def _(fn, s, f):
    cell = Ref([f], 0)

    def gen():
        st = 0
        for k in range(s.n):
            if truth(VM.call_value(cell, [Ref(s.l, s.o + k)])):
                yield SliceRef(s.l, s.o + st, k - st)
                st = k + 1
        yield SliceRef(s.l, s.o + st, s.n - st)
    return PyIter(gen())


def _sort(s, lt):
    """stable insertion sort deciding with lt(a, b)"""
    out = []
    for x in S(s):
        k = len(out)
        while k > 0 and lt(x, out[k - 1]):
            k -= 1
        out.insert(k, x)
    s.l[s.o:s.o + s.n] = out
    return unit()


@m('alloc::slice::<impl [T]>::sort', 'core::slice::<impl [T]>::sort_unstable', needs=[('cmp', 0)])
def _(fn, s):
    t = VM.types[fn['ga'][0]]
    if t['k'] in ('int', 'char'):
        return _sort(s, lambda a, b: truth(cmp('lt', a, b, bool(t.get('sg')))))
    i = impl(fn, 0, 'cmp')
    return _sort(s, lambda a, b: VM.F[i](Ref([a], 0), Ref([b], 0)).v == 0)


@m('alloc::slice::<impl [T]>::sort_by', 'core::slice::<impl [T]>::sort_unstable_by')
def _(fn, s, f):
    cell = Ref([f], 0)
    return _sort(s, lambda a, b: VM.call_value(cell, [Ref([a], 0), Ref([b], 0)]).v == 0)


@m('alloc::slice::<impl [T]>::sort_by_key', 'core::slice::<impl [T]>::sort_unstable_by_key', 'alloc::slice::<impl [T]>::sort_by_cached_key', needs=[('cmp', 1)])
def _(fn, s, f):
    cell = Ref([f], 0)
    i = impl(fn, 1, 'cmp')
    return _sort(s, lambda a, b: VM.F[i](Ref([VM.call_value(cell, [Ref([a], 0)])], 0), Ref([VM.call_value(cell, [Ref([b], 0)])], 0)).v == 0)


@m(X + 'binary_search_by')
def _(fn, s, f):
    cell = Ref([f], 0)
    # contract: any matching index if sorted; modelled as the real algorithm
    size = s.n
    if size == 0:
        return err(0)
    base = 0
    while size > 1:
        half = size // 2
        mid = base + half
        if VM.call_value(cell, [Ref(s.l, s.o + mid)]).v != 2:
            base = mid
        size -= half
    o = VM.call_value(cell, [Ref(s.l, s.o + base)]).v
    if o == 1:
        return ok(base)
    return err(base + (1 if o == 0 else 0))


# arrays ---------------------------------------------------------------------
@m('core::array::iter::<impl core::iter::traits::collect::IntoIterator for [T; N]>::into_iter')
def _(fn, a):
    return PyIter(list(a.f))


@m("core::array::<impl core::iter::traits::collect::IntoIterator for &'a [T; N]>::into_iter", "core::array::<impl core::iter::traits::collect::IntoIterator for &'a mut [T; N]>::into_iter")
def _(fn, a):
    f = D(a).f
    return PyIter([Ref(f, k) for k in range(len(f))])


@m('core::array::<impl [T; N]>::as_slice', 'core::array::<impl core::convert::AsRef<[T]> for [T; N]>::as_ref', 'core::array::<impl [T; N]>::as_mut_slice',
   'core::array::<impl core::borrow::Borrow<[T]> for [T; N]>::borrow')
def _(fn, a):
    f = D(a).f
    return SliceRef(f, 0, len(f))


@m('core::array::<impl [T; N]>::map')
def _(fn, a, f):
    cell = Ref([f], 0)
    return Agg(0, [VM.call_value(cell, [x]) for x in a.f])


# ---------------------------------------------------------------- VecDeque (as VecV)
Q = 'alloc::collections::vec_deque::VecDeque::<T, A>::'
Q0 = 'alloc::collections::vec_deque::VecDeque::<T>::'
m(Q0 + 'new', Q0 + 'with_capacity', '<alloc::collections::vec_deque::VecDeque<T> as core::default::Default>::default')(lambda fn, *a: VecV([]))
m(Q + 'push_back')(lambda fn, v, x: (D(v).l.append(x), unit())[1])
m(Q + 'push_front')(lambda fn, v, x: (D(v).l.insert(0, x), unit())[1])
m(Q + 'pop_front')(lambda fn, v: some(D(v).l.pop(0)) if D(v).l else none())
m(Q + 'pop_back')(lambda fn, v: some(D(v).l.pop()) if D(v).l else none())
m(Q + 'len')(lambda fn, v: len(D(v).l))
m(Q + 'is_empty')(lambda fn, v: not D(v).l)
m(Q + 'clear')(lambda fn, v: (D(v).l.clear(), unit())[1])
m(Q + 'front', Q + 'front_mut')(lambda fn, v: some(Ref(D(v).l, 0)) if D(v).l else none())
m(Q + 'back', Q + 'back_mut')(lambda fn, v: some(Ref(D(v).l, len(D(v).l) - 1)) if D(v).l else none())
m(Q + 'iter', Q + 'iter_mut')(lambda fn, v: PyIter([Ref(D(v).l, k) for k in range(len(D(v).l))]))
m('<alloc::collections::vec_deque::VecDeque<T, A> as core::iter::traits::collect::IntoIterator>::into_iter')(lambda fn, v: PyIter(v.l))
m('<alloc::collections::vec_deque::VecDeque<T, A> as core::convert::From<alloc::vec::Vec<T, A>>>::from',
  '<alloc::vec::Vec<T, A> as core::convert::From<alloc::collections::vec_deque::VecDeque<T, A>>>::from',
  '<alloc::collections::vec_deque::VecDeque<T> as core::convert::From<[T; N]>>::from')(lambda fn, v: VecV(list(v.f)) if type(v) is Agg else v)


@m('<alloc::collections::vec_deque::VecDeque<T> as core::iter::traits::collect::FromIterator<T>>::from_iter', needs=[('iter', 1)])
def _(fn, it):
    return VecV(list(iterate(fn, 1, it)))


@m('<alloc::collections::vec_deque::VecDeque<T, A> as core::iter::traits::collect::Extend<T>>::extend', needs=[('iter', 2)])
def _(fn, v, it):
    D(v).l.extend(iterate(fn, 2, it))
    return unit()


# BinaryHeap -----------------------------------------------------------------
H = 'alloc::collections::binary_heap::BinaryHeap::<T>::'
HA = 'alloc::collections::binary_heap::BinaryHeap::<T, A>::'
m(H + 'new', H + 'with_capacity', '<alloc::collections::binary_heap::BinaryHeap<T> as core::default::Default>::default')(lambda fn, *a: VecV([]))
m(HA + 'push')(lambda fn, v, x: (D(v).l.append(x), unit())[1])
m(HA + 'len')(lambda fn, v: len(D(v).l))
m(HA + 'is_empty')(lambda fn, v: not D(v).l)


@m(HA + 'pop', needs=[('cmp', 0)])
def _(fn, v):
    l = D(v).l
    if not l:
        return none()
    i = impl(fn, 0, 'cmp')
    b = 0
    for k in range(1, len(l)):
        if VM.F[i](Ref(l, k), Ref(l, b)).v == 2:
            b = k
    return some(l.pop(b))


# ---------------------------------------------------------------- smart pointers
@m('alloc::boxed::Box::<T>::new', 'alloc::rc::Rc::<T>::new', 'alloc::sync::Arc::<T>::new', 'alloc::boxed::box_new', 'alloc::alloc::exchange_malloc')
def _(fn, x):
    return Ref([x], 0)


@m('alloc::boxed::Box::<T>::pin', 'alloc::rc::Rc::<T>::pin', 'alloc::sync::Arc::<T>::pin')
def _(fn, x):
    return Agg(0, [Ref([x], 0)])


@m('alloc::boxed::Box::<T, A>::into_pin', '<core::pin::Pin<alloc::boxed::Box<T, A>> as core::convert::From<alloc::boxed::Box<T, A>>>::from')
def _(fn, x):
    return Agg(0, [x])


@m('<alloc::boxed::Box<T> as core::convert::From<T>>::from', '<alloc::rc::Rc<T> as core::convert::From<T>>::from', '<alloc::sync::Arc<T> as core::convert::From<T>>::from')
def _(fn, x):
    return Ref([x], 0)


@m('alloc::boxed::Box::<T>::new_uninit', 'alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>, A>::assume_init', 'alloc::boxed::Box::<core::mem::maybe_uninit::MaybeUninit<T>>::new_uninit')
def _(fn, *a):
    return a[0] if a else Ref([Agg(0, [None, Agg(0, [None])])], 0)


def ident(fn, x):
    return x


def deref1(fn, x):
    v = D(x)
    return v


m('<alloc::boxed::Box<T, A> as core::ops::deref::Deref>::deref', '<alloc::boxed::Box<T, A> as core::ops::deref::DerefMut>::deref_mut',
  '<alloc::rc::Rc<T, A> as core::ops::deref::Deref>::deref', '<alloc::sync::Arc<T, A> as core::ops::deref::Deref>::deref',
  '<alloc::boxed::Box<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::rc::Rc<T, A> as core::convert::AsRef<T>>::as_ref', '<alloc::sync::Arc<T, A> as core::convert::AsRef<T>>::as_ref',
  '<alloc::boxed::Box<T, A> as core::convert::AsMut<T>>::as_mut',
  '<alloc::boxed::Box<T, A> as core::borrow::Borrow<T>>::borrow', '<alloc::sync::Arc<T, A> as core::borrow::Borrow<T>>::borrow', '<alloc::rc::Rc<T, A> as core::borrow::Borrow<T>>::borrow')(deref1)
m('<alloc::rc::Rc<T, A> as core::clone::Clone>::clone', '<alloc::sync::Arc<T, A> as core::clone::Clone>::clone')(deref1)
m('alloc::boxed::Box::<T, A>::into_raw', 'alloc::boxed::Box::<T>::from_raw', 'alloc::boxed::Box::<T, A>::leak', 'alloc::boxed::Box::<T, A>::as_ptr', 'alloc::boxed::Box::<T, A>::as_mut_ptr',
  'alloc::boxed::Box::<T, A>::into_unique', 'alloc::boxed::Box::<T, A>::from_raw_in')(ident)


@m('alloc::boxed::Box::<T, A>::into_inner')
def _(fn, b):
    return D(b)


@m('alloc::rc::Rc::<T, A>::ptr_eq', 'alloc::sync::Arc::<T, A>::ptr_eq')
def _(fn, a, b):
    a, b = D(a), D(b)
    return a.c is b.c and a.i == b.i


@m('alloc::rc::Rc::<T, A>::try_unwrap', 'alloc::sync::Arc::<T, A>::try_unwrap')
def _(fn, a):
    return ok(D(a))


@m('<alloc::boxed::Box<T, A> as core::clone::Clone>::clone', needs=[('clone', 0)])
def _(fn, r):
    b = D(r)
    i = VM.impls.get((fn['ga'][0], 'clone'))
    if i is None:
        return Ref([deep_clone(D(b))], 0)
    return Ref([VM.F[i](b)], 0)


@m('alloc::rc::Rc::<T, A>::downgrade', 'alloc::sync::Arc::<T, A>::downgrade', 'alloc::rc::Weak::<T, A>::x')
def _(fn, r):
    return D(r)


@m('alloc::rc::Weak::<T, A>::upgrade', 'alloc::sync::Weak::<T, A>::upgrade')
def _(fn, r):
    return some(D(r))


# Cell / RefCell
@m('core::cell::RefCell::<T>::new', 'core::cell::Cell::<T>::new', 'core::cell::UnsafeCell::<T>::new', 'core::cell::once::OnceCell::<T>::x')
def _(fn, x):
    return Agg(0, [x])


@m('core::cell::RefCell::<T>::borrow', 'core::cell::RefCell::<T>::borrow_mut', 'core::cell::RefCell::<T>::as_ptr', 'core::cell::RefCell::<T>::get_mut', 'core::cell::UnsafeCell::<T>::get')
def _(fn, r):
    return Ref(D(r).f, 0)


m("<core::cell::Ref<'_, T> as core::ops::deref::Deref>::deref", "<core::cell::RefMut<'_, T> as core::ops::deref::Deref>::deref",
  "<core::cell::RefMut<'_, T> as core::ops::deref::DerefMut>::deref_mut")(deref1)
m("core::cell::Ref::<'b, T>::clone")(deref1)
m('core::cell::Cell::<T>::get')(lambda fn, r: clone(D(r).f[0]))


@m('core::cell::Cell::<T>::set')
def _(fn, r, x):
    D(r).f[0] = x
    return unit()


@m('core::cell::Cell::<T>::replace', 'core::cell::RefCell::<T>::replace')
def _(fn, r, x):
    o = D(r).f[0]
    D(r).f[0] = x
    return o


@m('core::cell::RefCell::<T>::into_inner', 'core::cell::Cell::<T>::into_inner')
def _(fn, c):
    return c.f[0]


# ---------------------------------------------------------------- mem / ptr
@m('core::mem::replace')
def _(fn, r, x):
    o = D(r)
    r.c[r.i] = x
    return o


@m('core::mem::swap')
def _(fn, a, b):
    a.c[a.i], b.c[b.i] = b.c[b.i], a.c[a.i]
    return unit()


@m('core::mem::take', needs=[('default', 0)])
def _(fn, r):
    o = D(r)
    r.c[r.i] = VM.F[impl(fn, 0, 'default')]()
    return o


@m('core::mem::forget', 'core::mem::manually_drop::ManuallyDrop::<T>::drop')
def _(fn, x):
    return unit()


@m('core::mem::manually_drop::ManuallyDrop::<T>::new')
def _(fn, x):
    return Agg(0, [x])


@m('core::mem::manually_drop::ManuallyDrop::<T>::into_inner')
def _(fn, x):
    return x.f[0]


@m('<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::Deref>::deref', '<core::mem::manually_drop::ManuallyDrop<T> as core::ops::deref::DerefMut>::deref_mut')
def _(fn, r):
    return Ref(D(r).f, 0)


@m('core::ptr::read', 'core::ptr::const_ptr::<impl *const T>::read', 'core::ptr::mut_ptr::<impl *mut T>::read')
def _(fn, p):
    return D(p)


@m('core::ptr::write', 'core::ptr::mut_ptr::<impl *mut T>::write')
def _(fn, p, x):
    p.c[p.i] = x
    return unit()


@m('core::ptr::drop_in_place', 'core::ptr::mut_ptr::<impl *mut T>::drop_in_place')
def _(fn, p):
    return unit()


@m('core::ptr::eq', 'core::ptr::addr_eq')
def _(fn, a, b):
    from vm import eqx
    return eqx(a, b)


@m('core::mem::discriminant')
def _(fn, r):
    return Agg(0, [D(r).v])


@m('<core::mem::Discriminant<T> as core::cmp::PartialEq>::eq')
def _(fn, a, b):
    return D(a).f[0] == D(b).f[0]


@m('core::mem::size_of', 'core::mem::align_of', 'core::mem::needs_drop')
def _(fn, *a):
    return 8


# ---------------------------------------------------------------- intrinsics
I = 'core::intrinsics::'


def bits(fn, i=0):
    t = VM.types[fn['ga'][i]]
    if t['k'] == 'int':
        return t['w'], bool(t['sg'])
    if t['k'] == 'char':
        return 32, False
    if t['k'] == 'bool':
        return 8, False
    raise Unmodelled('bits of ' + t['s'])


@m(I + 'discriminant_value')
def _(fn, r):
    t = VM.types[fn['ga'][0]]
    v = D(r)
    if t['k'] == 'adt' and t['u'] == 1:
        return t['vs'][v.v][1]
    if t['k'] == 'coroutine':
        return v.v
    return 0


m(I + 'cold_path', I + 'assume', I + 'assert_inhabited', I + 'assert_zero_valid', I + 'assert_mem_uninitialized_valid', 'core::hint::assert_unchecked', 'core::ub_checks::x')(lambda fn, *a: unit())
m(I + 'black_box', I + 'likely', I + 'unlikely', 'core::hint::black_box', 'core::hint::must_use')(lambda fn, x: x)
m(I + 'is_val_statically_known', I + 'ub_checks')(lambda fn, *a: False)
m(I + 'needs_drop')(lambda fn: False)
m(I + 'size_of', I + 'min_align_of', I + 'align_of')(lambda fn: (VM.types[fn['ga'][0]].get('w', 64) + 7) // 8)
m(I + 'type_name')(lambda fn: pystr(VM.tname(fn['ga'][0])))
m(I + 'type_id')(lambda fn: Agg(0, [fn['ga'][0]]))
m('core::any::TypeId::of')(lambda fn: Agg(0, [fn['ga'][0]]))
m('<core::any::TypeId as core::cmp::PartialEq>::eq')(lambda fn, a, b: D(a).f[0] == D(b).f[0])
m(I + 'abort', 'std::process::abort')(lambda fn: panic('abort'))
m(I + 'unreachable', 'core::hint::unreachable_unchecked')(lambda fn: (_ for _ in ()).throw(Unmodelled('unreachable intrinsic')))
m(I + 'read_via_copy', I + 'volatile_load')(lambda fn, p: D(p))


@m(I + 'write_via_move')
def _(fn, p, x):
    p.c[p.i] = x
    return unit()


@m(I + 'const_eval_select')
def _(fn, args, a, b):
    return VM.call_value(b, args.f)


def binint(name, op):
    @m(I + name)
    def _(fn, a, b):
        w, sg = bits(fn)
        return arith(op, a, b, w, sg)


for n, o in (('wrapping_add', 'add'), ('wrapping_sub', 'sub'), ('wrapping_mul', 'mul'), ('unchecked_add', 'add'), ('unchecked_sub', 'sub'), ('unchecked_mul', 'mul'),
             ('unchecked_div', 'div'), ('unchecked_rem', 'rem'), ('unchecked_shl', 'shl'), ('unchecked_shr', 'shr'), ('exact_div', 'div')):
    binint(n, o)
for o in ('add', 'sub', 'mul'):
    def mk4(o=o):
        @m(I + o + '_with_overflow')
        def _(fn, a, b):
            w, sg = bits(fn)
            return tup(arith(o, a, b, w, sg), overflow(o, a, b, w, sg))
    mk4()


def sat(o, a, b, w, sg):
    if type(a) is E or type(b) is E:
        if truth(overflow(o, a, b, w, sg)):
            if not sg:
                return 0 if o == 'sub' else (1 << w) - 1
            raise Unmodelled('symbolic signed saturation')
        return arith(o, a, b, w, sg)
    r = a + b if o == 'add' else a - b if o == 'sub' else a * b
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
    return max(lo, min(hi, r))


for o in ('add', 'sub'):
    def mk5(o=o):
        @m(I + 'saturating_' + o)
        def _(fn, a, b):
            w, sg = bits(fn)
            return sat(o, a, b, w, sg)
    mk5()

INTS = [('u8', 8, 0), ('u16', 16, 0), ('u32', 32, 0), ('u64', 64, 0), ('u128', 128, 0), ('usize', 64, 0), ('i8', 8, 1), ('i16', 16, 1), ('i32', 32, 1), ('i64', 64, 1), ('i128', 128, 1), ('isize', 64, 1)]
for ty, w, sg in INTS:
    def mk6(ty=ty, w=w, sg=bool(sg)):
        p = 'core::num::<impl %s>::' % ty
        for o in ('add', 'sub', 'mul'):
            def mk7(o=o):
                @m(p + 'checked_' + o)
                def _(fn, a, b):
                    if truth(overflow(o, a, b, w, sg)):
                        return none()
                    return some(arith(o, a, b, w, sg))

                @m(p + 'wrapping_' + o)
                def _(fn, a, b):
                    return arith(o, a, b, w, sg)

                @m(p + 'saturating_' + o)
                def _(fn, a, b):
                    return sat(o, a, b, w, sg)

                @m(p + 'overflowing_' + o)
                def _(fn, a, b):
                    return tup(arith(o, a, b, w, sg), overflow(o, a, b, w, sg))
            mk7()

        @m(p + 'pow', p + 'checked_pow')
        def _(fn, a, b):
            b = CUR.P.conc(b)
            a = CUR.P.conc(a)
            r = a ** b
            if r != wrapint(r, w, sg):
                if 'checked' in fn['n']:
                    return none()
                panic('attempt to multiply with overflow')
            return some(r) if 'checked' in fn['n'] else r

        @m('core::cmp::impls::<impl core::cmp::Ord for %s>::cmp' % ty)
        def _(fn, a, b):
            a, b = D(a), D(b)
            if truth(cmp('lt', a, b, sg)):
                return ordering(-1)
            return ordering(0) if truth(cmp('eq', a, b)) else ordering(1)
        m('core::clone::impls::<impl core::clone::Clone for %s>::clone' % ty)(lambda fn, r: D(r))
        m('core::cmp::impls::<impl core::cmp::PartialEq for %s>::eq' % ty)(lambda fn, a, b: cmp('eq', D(a), D(b)))
    mk6()


@m('core::cmp::impls::<impl core::cmp::Ord for char>::cmp', 'core::cmp::impls::<impl core::cmp::Ord for bool>::cmp')
def _(fn, a, b):
    a, b = D(a), D(b)
    if truth(cmp('eq', a, b)):
        return ordering(0)
    return ordering(-1) if truth(cmp('lt', a, b)) else ordering(1)


@m(I + 'three_way_compare')
def _(fn, a, b):
    w, sg = bits(fn)
    if truth(cmp('eq', a, b)):
        return ordering(0)
    return ordering(-1) if truth(cmp('lt', a, b, sg)) else ordering(1)


@m(I + 'ctpop', I + 'ctlz', I + 'cttz', I + 'bswap')
def _(fn, x):
    w, sg = bits(fn)
    x = CUR.P.conc(x) & ((1 << w) - 1)
    n = fn['n'].split('::')[-1]
    if n == 'ctpop':
        return bin(x).count('1')
    if n == 'ctlz':
        return w - x.bit_length()
    if n == 'cttz':
        return (x & -x).bit_length() - 1 if x else w
    return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')


# ---------------------------------------------------------------- Clone of &T, tuples handled by shims
@m('core::clone::impls::<impl core::clone::Clone for &T>::clone')
def _(fn, r):
    return D(r)


# ---------------------------------------------------------------- panics
def msg_of(a):
    try:
        if type(a) is SliceRef:
            return bytes(x if type(x) is int else 63 for x in S(a)).decode('utf8', 'replace')
        if type(a) is PyObj and a.k == 'args':
            from mfmt import render
            return ''.join(chr(x) if type(x) is int else '?' for x in render(a))
    except (Infeasible, Violation):
        raise
    except Exception:
        pass
    return '?'


def _panic(fn, *a):
    panic(fn['n'].split('::')[-1] + ': ' + (msg_of(a[0]) if a else ''))


for n in ('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::panic_nounwind', 'core::panicking::panic_nounwind_fmt', 'core::panicking::panic_explicit',
          'core::panicking::panic_display', 'core::panicking::panic_str_2015', 'core::panicking::unreachable_display', 'core::panicking::panic_bounds_check', 'core::option::unwrap_failed',
          'core::option::expect_failed', 'core::result::unwrap_failed', 'core::panicking::assert_failed', 'core::panicking::assert_failed_inner', 'core::str::slice_error_fail',
          'core::slice::index::slice_index_fail', 'core::cell::panic_already_borrowed', 'core::cell::panic_already_mutably_borrowed', 'std::panicking::begin_panic', 'std::rt::begin_panic', 'std::panicking::begin_panic_fmt',
          'core::panicking::unreachable_default_msg', 'alloc::raw_vec::handle_error', 'std::panicking::panic_any', 'std::panic::panic_any', 'core::panicking::panic_null_pointer_dereference'):
    m(n)(_panic)
mp('core::panicking::panic_const::')(_panic)


@m('<core::net::ip_addr::Ipv4Addr as core::fmt::Display>::fmt')
def _(fn, r, f):
    from mfmt import F_
    v = D(r)
    while type(v) is Agg and len(v.f) == 1:
        v = v.f[0]
    o = '.'.join(str(CUR.P.conc(x)) for x in v.f)
    F_(f).sink(list(o.encode()))
    return ok(unit())


@m('core::num::nonzero::NonZero::<T>::new')
def _(fn, x):
    return none() if truth(cmp("eq", x, 0)) else some(Agg(0, [Agg(0, [x])]))


def intminmax(name, op):
    @m(I + name)
    def _(fn, a, b):
        w, sg = bits(fn)
        return a if truth(cmp(op, a, b, sg)) else b


intminmax('integer_max', 'ge')
intminmax('integer_min', 'le')


m(Q + 'make_contiguous', Q + 'as_mut_slices_x')(_vslice)
m('alloc::collections::vec_deque::<impl core::convert::From<alloc::collections::vec_deque::VecDeque<T, A>> for alloc::vec::Vec<T, A>>::from',
  'alloc::collections::vec_deque::<impl core::convert::From<alloc::vec::Vec<T, A>> for alloc::collections::vec_deque::VecDeque<T, A>>::from')(lambda fn, v: v)


@m('petgraph::graph_impl::index_twice')
def _(fn, s, a, b):
    a, b = CUR.P.conc(a), CUR.P.conc(b)
    n = CUR.P.conc(s.n)
    if max(a, b) >= n:
        return Agg(2, [])
    if a == b:
        return Agg(1, [Ref(s.l, s.o + a)])
    return Agg(0, [Ref(s.l, s.o + a), Ref(s.l, s.o + b)])


@m("<alloc::collections::vec_deque::VecDeque<T, A> as core::iter::traits::collect::Extend<&'a T>>::extend", needs=[('iter', 2)])
def _(fn, v, it):
    D(v).l.extend([D(x) for x in iterate(fn, 2, it)])
    return unit()


def coll(*names):
    for n in names:
        @m('<indexmap::%s as core::iter::traits::iterator::Iterator>::collect' % n)
        def _(fn, it):
            t = VM.tname(fn['ga'][-2]) if False else [VM.tname(x) for x in fn['ga']]
            c = [x for x in t[1:] if x.startswith('alloc::vec::Vec<')]
            if not c:
                raise Unmodelled('indexmap collect into %r' % t)
            return VecV([x for x in it_drain(None, None, it)])


coll("map::Iter<'a, K, V>", "map::Keys<'a, K, V>", "map::Values<'a, K, V>", "map::IntoIter<K, V>", "set::Iter<'a, T>", "set::IntoIter<T>",
     "map::iter::Iter<'a, K, V>", "map::iter::Keys<'a, K, V>", "map::iter::Values<'a, K, V>", "map::iter::IntoIter<K, V>", "set::iter::Iter<'a, T>")


@m('base64::engine::general_purpose::read_u64')
def _(fn, s):
    r = 0
    for x in S(s)[:8]:
        r = arith('or', arith('shl', r, 8, 64, False), cast(x, 8, False, 64, False), 64, False)
    return r


@m("<&'a [u8] as nom::traits::Compare<&'b [u8]>>::compare", "<&'a str as nom::traits::Compare<&'b str>>::compare")
def _(fn, a, b):
    # CompareResult: Ok, Incomplete, Error
    a, b = S(a), S(b)
    n = min(len(a), len(b))
    for k in range(n):
        if a[k] is not b[k] and not truth(cmp('eq', a[k], b[k])):
            return Agg(2, [])
    return Agg(0 if len(a) >= len(b) else 1, [])
