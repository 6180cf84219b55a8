"""Futures: executors, wakers, channels, locks, FuturesUnordered, time, tracing.

Tasks are polled by the real combinators' MIR; what is modelled here are the leaves.  Poll::Ready = variant 0, Pending = 1."""
from mcore import *


def ready(x):
    return Agg(0, [x])


def pending():
    return Agg(1, [])


def pin(r):
    return Agg(0, [r])


def unpin(p):
    while type(p) is Agg:
        p = p.f[0]
    return p


class Waker:
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn


def mkcx(fn):
    """a &mut Context whose waker calls fn()"""
    return Ref([PyObj('cx', Ref([PyObj('waker', fn)], 0))], 0)


def waker_of(cx):
    """python wake function of a &mut Context"""
    c = cx
    while type(c) in (Ref, DynRef):
        c = D(c)
    return D(c.d).d


def fut(thunk):
    """a future of a modelled crate: runs `thunk` when first polled"""
    return PyObj('fut', [thunk])


def futv(x):
    return PyObj('fut', [lambda: x])


def pollfut(v, cx):
    return ready(v.d[0]())


def pollany(t, pinned, cx):
    """poll a future value of type id t"""
    v = D(unpin(pinned)) if type(unpin(pinned)) is Ref else None
    if type(v) is PyObj and v.k == 'fut':
        return pollfut(v, cx)
    return VM.F[impl_t(t, 'poll')](pinned, cx)


def block_on(fn, f, *rest):
    woken = [True]

    def wake():
        woken[0] = True
    cell = [f]
    cx = mkcx(wake)
    n = 0
    while True:
        if not woken[0]:
            if not CUR.P.sat():
                raise Infeasible()
            raise Violation('nontermination: every task is waiting', CUR.P.model_inputs())
        woken[0] = False
        r = pollany(fn['ga'][0], pin(Ref(cell, 0)), cx)
        if r.v == 0:
            return r.f[0]
        n += 1
        if n > 5000:
            raise Violation('nontermination', CUR.P.model_inputs())


m('futures_executor::local_pool::block_on', 'async_std::task::block_on::block_on', needs=[('poll', 0)])(block_on)


# ---------------------------------------------------------------- polling modelled futures
def poll_stub(fn, p, cx):
    v = D(unpin(p))
    if type(v) is PyObj and v.k == 'fut':
        return pollfut(v, cx)
    raise Unmodelled('poll of %s on %r' % (fn['n'], v))


# ---------------------------------------------------------------- Context / Waker
W = 'core::task::wake::'
m(W + "Context::<'a>::from_waker")(lambda fn, w: PyObj('cx', w))
m(W + "Context::<'a>::waker")(lambda fn, c: D(c).d)
m(W + 'Waker::wake_by_ref')(lambda fn, w: (D(w).d(), unit())[1])
m(W + 'Waker::wake')(lambda fn, w: (w.d(), unit())[1])
m(W + 'Waker::will_wake')(lambda fn, a, b: D(a) is D(b))
m('<core::task::wake::Waker as core::clone::Clone>::clone')(lambda fn, w: D(w))
m(W + 'Waker::noop')(lambda fn: Ref([PyObj('waker', lambda: None)], 0))
m('futures_task::noop_waker::noop_waker')(lambda fn: PyObj('waker', lambda: None))
m('futures_task::noop_waker::noop_waker_ref')(lambda fn: Ref([PyObj('waker', lambda: None)], 0))

# ---------------------------------------------------------------- FuturesUnordered
FU = 'futures_util::stream::futures_unordered::FuturesUnordered::<Fut>::'


class FUd:
    __slots__ = ('tasks', 'q', 'waker')

    def __init__(self):
        self.tasks = []      # [cell]
        self.q = []          # ready queue of task objects
        self.waker = None


class Task:
    __slots__ = ('cell', 'queued', 'done')

    def __init__(self, f):
        self.cell = [f]
        self.queued = True
        self.done = False


def FUV(r):
    r = unpin(r)
    while type(r) in (Ref, DynRef):
        r = D(r)
    return r.d


def fu_push(d, f):
    t = Task(f)
    d.tasks.append(t)
    d.q.append(t)


m(FU + 'new', '<futures_util::stream::futures_unordered::FuturesUnordered<Fut> as core::default::Default>::default')(lambda fn: PyObj('fu', FUd()))
m(FU + 'push')(lambda fn, r, f: (fu_push(FUV(r), f), unit())[1])
m(FU + 'len')(lambda fn, r: len(FUV(r).tasks))
m(FU + 'is_empty')(lambda fn, r: not FUV(r).tasks)


@m('<futures_util::stream::futures_unordered::FuturesUnordered<Fut> as core::iter::traits::collect::FromIterator<Fut>>::from_iter', needs=[('iter', 1)])
def _(fn, it):
    d = FUd()
    for x in iterate(fn, 1, it):
        fu_push(d, x)
    return PyObj('fu', d)


@m('<futures_util::stream::futures_unordered::FuturesUnordered<Fut> as futures_core::stream::Stream>::poll_next', needs=[('poll', 0)])
def _(fn, p, cx):
    d = FUV(p)
    d.waker = waker_of(cx)
    polled = 0
    n = len(d.tasks)
    while True:
        if not d.q:
            return ready(none()) if not d.tasks else pending()
        t = d.q.pop(0)
        if t.done:
            continue
        t.queued = False

        def wake(t=t):
            if not t.queued and not t.done:
                t.queued = True
                d.q.append(t)
                if d.waker:
                    d.waker()
        r = pollany(fn['ga'][0], pin(Ref(t.cell, 0)), mkcx(wake))
        if r.v == 0:
            t.done = True
            d.tasks.remove(t)
            return ready(some(r.f[0]))
        polled += 1
        if polled >= n:
            waker_of(cx)()
            return pending()


# ---------------------------------------------------------------- mpsc channels
class Chan:
    __slots__ = ('q', 'waker', 'closed')

    def __init__(self):
        self.q = []
        self.waker = None
        self.closed = False


def CV(r):
    r = unpin(r)
    while type(r) in (Ref, DynRef):
        r = D(r)
    return r.d


@m('futures_channel::mpsc::unbounded')
def _(fn):
    c = Chan()
    return tup(PyObj('tx', c), PyObj('rx', c))


MP = 'futures_channel::mpsc::'


@m(MP + 'UnboundedSender::<T>::unbounded_send')
def _(fn, s, x):
    c = CV(s)
    c.q.append(x)
    if c.waker:
        w, c.waker = c.waker, None
        w()
    return ok(unit())


m('<futures_channel::mpsc::UnboundedSender<T> as core::clone::Clone>::clone')(lambda fn, s: PyObj('tx', CV(s)))


@m('<futures_channel::mpsc::UnboundedReceiver<T> as futures_core::stream::Stream>::poll_next')
def _(fn, p, cx):
    c = CV(p)
    if c.q:
        return ready(some(c.q.pop(0)))
    if c.closed:
        return ready(none())
    c.waker = waker_of(cx)
    return pending()


@m(MP + 'UnboundedSender::<T>::close_channel')
def _(fn, s):
    c = CV(s)
    c.closed = True
    if c.waker:
        w, c.waker = c.waker, None
        w()
    return unit()


m('<futures_channel::mpsc::UnboundedReceiver<T> as futures_core::stream::FusedStream>::is_terminated')(lambda fn, r: False)


# ---------------------------------------------------------------- locks
class Lock:
    __slots__ = ('cell', 'locked', 'waiters')

    def __init__(self, x):
        self.cell = [x]
        self.locked = False
        self.waiters = []


def LV(r):
    while type(r) in (Ref, DynRef):
        r = D(r)
    return r.d


LK = ['async_lock::mutex::Mutex::<T>::', 'async_std::sync::mutex::Mutex::<T>::', 'futures_util::lock::mutex::Mutex::<T>::']
GD = ["async_lock::mutex::MutexGuard<'_, T>", "futures_util::lock::mutex::MutexGuard<'_, T>", "async_lock::mutex::MutexGuard<'a, T>"]


def guard(l):
    l.locked = True
    return PyObj('guard', l)


m(*[l + 'new' for l in LK])(lambda fn, x: PyObj('lock', Lock(x)))
m(*[l + 'try_lock' for l in LK])(lambda fn, r: none() if LV(r).locked else some(guard(LV(r))))
m(*[l + 'into_inner' for l in LK])(lambda fn, r: r.d.cell[0])


def lock_fut(l):
    return PyObj('lockfut', l)


m(*[l + 'lock' for l in LK])(lambda fn, r: lock_fut(LV(r)))


def poll_lock(fn, p, cx):
    v = D(unpin(p))
    if type(v) is PyObj and v.k == 'fut':
        return pollfut(v, cx)
    l = v.d
    if l.locked:
        l.waiters.append(waker_of(cx))
        return pending()
    return ready(guard(l))


m("<async_lock::mutex::Lock<'a, T> as core::future::future::Future>::poll", "<async_lock::mutex::Lock<'_, T> as core::future::future::Future>::poll",
  "<futures_util::lock::mutex::MutexLockFuture<'a, T> as core::future::future::Future>::poll",
  'async_lock::mutex::Mutex::<T>::lock::{closure#0}')(poll_lock)
m(*['<%s as core::ops::deref::Deref>::deref' % g for g in GD], *['<%s as core::ops::deref::DerefMut>::deref_mut' % g for g in GD])(
    lambda fn, r: Ref(LV(r).cell, 0))


def dropval(v):
    if type(v) is PyObj and v.k == 'guard':
        v.d.locked = False
        w, v.d.waiters = v.d.waiters, []
        for x in w:
            x()
    elif type(v) is Agg:
        for x in v.f:
            dropval(x)


VM.dropval = dropval

# std Mutex / RwLock: single-threaded runs, never poisoned
SM = ['std::sync::poison::mutex::Mutex::<T>::', 'std::sync::poison::rwlock::RwLock::<T>::']
m(*[s + 'new' for s in SM])(lambda fn, x: PyObj('lock', Lock(x)))
m(*[s + n for s in SM for n in ('lock', 'read', 'write', 'try_lock')])(lambda fn, r: ok(PyObj('sguard', LV(r))))
m(*[s + 'into_inner' for s in SM])(lambda fn, r: ok(r.d.cell[0]))
m(*["<std::sync::poison::%s<'_, T> as core::ops::deref::%s" % (g, d) for g in ('mutex::MutexGuard', 'rwlock::RwLockReadGuard', 'rwlock::RwLockWriteGuard')
    for d in ('Deref>::deref', 'DerefMut>::deref_mut')])(lambda fn, r: Ref(LV(r).cell, 0))

# ---------------------------------------------------------------- atomics (single-threaded)
A = 'core::sync::atomic::'
ATY = ['Bool', 'Usize', 'Isize', 'U64', 'U32', 'U8', 'I64', 'I32', 'U16', 'I16', 'I8']


def AC(r):
    """the cell (list) holding an atomic's value"""
    while type(r) in (Ref, DynRef):
        r = D(r)
    while type(r.f[0]) is Agg:
        r = r.f[0]
    return r.f


def at_names(n):
    return [A + 'Atomic%s::%s' % (t, n) for t in ATY] + [A + 'Atomic::<%s>::%s' % (t, n) for t in
                                                          ('bool', 'usize', 'isize', 'u64', 'u32', 'u8', 'i64', 'i32', 'u16', 'i16', 'i8')]


m(*at_names('new'))(lambda fn, x: Agg(0, [x]))
m(*at_names('load'))(lambda fn, r, o: AC(r)[0])


def _store(fn, r, x, o):
    AC(r)[0] = x
    return unit()


def _swap(fn, r, x, *o):
    d = AC(r)
    y, d[0] = d[0], x
    return y


def _fetch_add(fn, r, x, o):
    d = AC(r)
    y = d[0]
    d[0] = (y + x) & (2**64 - 1)
    return y


def _fetch_sub(fn, r, x, o):
    d = AC(r)
    y = d[0]
    d[0] = (y - x) & (2**64 - 1)
    return y


def _cas(fn, r, a, b, *o):
    d = AC(r)
    y = d[0]
    if truth(cmp('eq', y, a)):
        d[0] = b
        return ok(y)
    return err(y)


m(*at_names('into_inner'))(lambda fn, a: AC(a)[0])
m(*at_names('store'))(_store)
m(*at_names('swap'))(_swap)
m(*at_names('fetch_add'))(_fetch_add)
m(*at_names('fetch_sub'))(_fetch_sub)
m(*at_names('compare_exchange'), *at_names('compare_exchange_weak'))(_cas)

# ---------------------------------------------------------------- time
for _c in ('std', 'core'):
    m('%s::time::Instant::now' % _c, '%s::time::SystemTime::now' % _c)(lambda fn: PyObj('instant', 0))
    m('%s::time::Instant::elapsed' % _c)(lambda fn, r: PyObj('duration', 0))
    m('%s::time::Instant::duration_since' % _c)(lambda fn, *a: PyObj('duration', 0))
    # a duration is its nanoseconds
    for _n, _k in (('as_millis', 10 ** 6), ('as_micros', 10 ** 3), ('as_secs', 10 ** 9), ('as_nanos', 1)):
        m('%s::time::Duration::%s' % (_c, _n))(lambda fn, r, _k=_k: _dur(r, _k))
    for _n, _k in (('from_millis', 10 ** 6), ('from_secs', 10 ** 9), ('from_micros', 10 ** 3), ('from_nanos', 1)):
        m('%s::time::Duration::%s' % (_c, _n))(lambda fn, n, _k=_k: PyObj('duration', n if _k == 1 else (n, _k)))


def _dur(r, k):
    d = D(r).d
    if type(d) is tuple:
        if d[1] == k:
            return d[0]
        if type(d[0]) is int:
            return d[0] * d[1] // k
        raise Unmodelled('symbolic duration in other units')
    return d // k if type(d) is int else (_ for _ in ()).throw(Unmodelled('symbolic duration'))


m('<std::time::Instant as core::clone::Clone>::clone')(lambda fn, r: D(r))

# ---------------------------------------------------------------- tracing: every level disabled
m('<tracing_core::metadata::Level as core::cmp::PartialOrd<tracing_core::metadata::LevelFilter>>::le',
  '<tracing_core::metadata::LevelFilter as core::cmp::PartialOrd<tracing_core::metadata::Level>>::ge',
  '<tracing_core::metadata::Level as core::cmp::PartialOrd<tracing_core::metadata::LevelFilter>>::lt')(lambda fn, *a: False)
m('tracing_core::metadata::LevelFilter::current')(lambda fn: OPAQUE)
m('tracing::span::Span::none', 'tracing::span::Span::current')(lambda fn: OPAQUE)


@m('core::mem::drop')
def _(fn, x):
    if type(x) is PyObj:
        dropval(x)
    return unit()
