"""HTTP: reqwest's client below the middleware, http's header types, bytes.  The network itself is the harness's middleware."""
import glob
import os
import re
from mcore import *
from masync import poll_stub, fut, futv, ready
from mfmt import pad, F_, okf
from mio import ioerr

# ---------------------------------------------------------------- bytes::Bytes = an immutable VecV
B = 'bytes::bytes::Bytes::'


def whole(v):
    l = list(S(v))
    return VecV(l)


m(B + 'from_static', B + 'copy_from_slice')(lambda fn, s: whole(s))
m(B + 'new')(lambda fn: VecV([]))
m(B + 'len')(lambda fn, r: len(S(r)))
m(B + 'is_empty')(lambda fn, r: not S(r))
m('<bytes::bytes::Bytes as core::clone::Clone>::clone')(lambda fn, r: whole(r))
m('<bytes::bytes::Bytes as core::convert::From<alloc::string::String>>::from', '<bytes::bytes::Bytes as core::convert::From<alloc::vec::Vec<u8>>>::from')(lambda fn, v: whole(v))


def sl(r):
    l = S(r)
    return SliceRef(l, 0, len(l))


m('<bytes::bytes::Bytes as core::convert::AsRef<[u8]>>::as_ref', '<bytes::bytes::Bytes as core::ops::deref::Deref>::deref')(lambda fn, r: sl(r))

# ---------------------------------------------------------------- header names and values
_src = glob.glob(os.path.join(os.environ.get('CARGO_HOME') or os.path.join(os.environ.get('HOME', '/root'), '.cargo'), 'registry', 'src', '*', 'http-0.2.9', 'src', 'header', 'name.rs'))
STD = [n.encode() for n in re.findall(r'^    \(\w+, [A-Z0-9_]+, b?"([^"]+)"\);', open(_src[0]).read(), re.M)] if _src else []
TOKEN = set(b"!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")


def hname(v):
    while type(v) in (Ref, DynRef):
        v = v.c[v.i]
    if type(v) is PyObj and v.k == 'hname':
        return v.d
    if type(v) in (SliceRef, VecV):
        b = S(v)
        if any(type(x) is not int for x in b):
            raise Unmodelled('symbolic header name')
        if not b or any(x not in TOKEN for x in b):
            return None
        return bytes(b).lower()
    if type(v) is Agg:
        # HeaderName { inner: Repr::Standard(StandardHeader) }
        r = v
        while type(r) is Agg and len(r.f) == 1 and r.v in (0, None):
            r = r.f[0]
        if type(r) is Agg and not r.f:
            return STD[r.v]
        if type(r) is int:
            return STD[r]
    raise Unmodelled('header name %r' % (v,))


H = 'http::header::name::HeaderName::'


def mkname(fn, v):
    n = hname(v)
    return err(OPAQUE) if n is None else ok(PyObj('hname', n))


m("<http::header::name::HeaderName as core::convert::TryFrom<&'a str>>::try_from", "<http::header::name::HeaderName as core::convert::TryFrom<&'a alloc::string::String>>::try_from",
  '<http::header::name::HeaderName as core::convert::TryFrom<alloc::string::String>>::try_from', '<http::header::name::HeaderName as core::str::traits::FromStr>::from_str',
  H + 'from_bytes')(mkname)
m(H + 'from_static')(lambda fn, v: PyObj('hname', hname(v)))
m('<http::header::name::HeaderName as core::clone::Clone>::clone')(lambda fn, r: PyObj('hname', hname(r)))


@m(H + 'as_str')
def _(fn, r):
    n = list(hname(r))
    return SliceRef(n, 0, len(n))


V = 'http::header::value::HeaderValue::'


def mkval(fn, v, strict=True):
    b = list(S(v))
    for x in b:
        good = bor(cmp('eq', x, 9), band(cmp('le', 32, x), cmp('lt', x, 127) if strict else bnot(cmp('eq', x, 127)))) if type(x) is not int else (x == 9 or 32 <= x and (x < 127 if strict else x != 127))
        if not truth(good):
            return err(OPAQUE)
    return ok(PyObj('hvalue', b))


VT = '<http::header::value::HeaderValue as core::convert::TryFrom<%s>>::try_from'
m(V + 'from_str', VT % "&'a str", VT % "&'a alloc::string::String", VT % 'alloc::string::String', '<http::header::value::HeaderValue as core::str::traits::FromStr>::from_str')(
    lambda fn, v: mkval(fn, v, False) if 'String' in fn['n'] else mkval(fn, v))
m(V + 'from_bytes', VT % "&'a [u8]", VT % 'alloc::vec::Vec<u8>')(lambda fn, v: mkval(fn, v, False))
m(V + 'from_static')(lambda fn, v: PyObj('hvalue', list(S(v))))
m(V + 'set_sensitive')(lambda fn, r, x: unit())
m(V + 'is_sensitive')(lambda fn, r: False)
m('<http::header::value::HeaderValue as core::clone::Clone>::clone')(lambda fn, r: D(r))
m(V + 'as_bytes')(lambda fn, r: SliceRef(D(r).d, 0, len(D(r).d)))
m(V + 'len')(lambda fn, r: len(D(r).d))


@m(V + 'to_str')
def _(fn, r):
    b = D(r).d
    for x in b:
        if not truth(bor(cmp('eq', x, 9), band(cmp('le', 32, x), cmp('lt', x, 127))) if type(x) is not int else (x == 9 or 32 <= x < 127)):
            return err(OPAQUE)
    return ok(SliceRef(b, 0, len(b)))


# ---------------------------------------------------------------- HeaderMap: PyObj('hmap', [[name, value]])
M = 'http::header::map::HeaderMap::'
MT = M + '<T>::'


def MV(r):
    while type(r) in (Ref, DynRef):
        r = r.c[r.i]
    if type(r) is not PyObj or r.k != 'hmap':
        raise Unmodelled('not a HeaderMap: %r' % (r,))
    return r.d


m(M + 'new', MT + 'new', '<http::header::map::HeaderMap<T> as core::default::Default>::default')(lambda fn: PyObj('hmap', []))
m(MT + 'with_capacity')(lambda fn, n: PyObj('hmap', []))
m('<http::header::map::HeaderMap<T> as core::clone::Clone>::clone')(lambda fn, r: PyObj('hmap', [list(e) for e in MV(r)]))
m(MT + 'len')(lambda fn, r: len(MV(r)))
m(MT + 'is_empty')(lambda fn, r: not MV(r))
m(MT + 'reserve', MT + 'clear')(lambda fn, r, *a: (MV(r).clear() if fn['n'].endswith('clear') else None, unit())[1])


def key(v):
    n = hname(v)
    if n is None:
        panic('static header name')
    return n


@m(MT + 'append')
def _(fn, r, k, v):
    d = MV(r)
    k = key(k)
    had = any(e[0] == k for e in d)
    d.append([k, v])
    return had


@m(MT + 'insert')
def _(fn, r, k, v):
    d = MV(r)
    k = key(k)
    old = [e for e in d if e[0] == k]
    p = d.index(old[0]) if old else len(d)
    d[:] = [e for e in d if e[0] != k]
    d.insert(p, [k, v])
    return some(old[0][1]) if old else none()


@m(MT + 'remove')
def _(fn, r, k):
    d = MV(r)
    k = key(k)
    old = [e for e in d if e[0] == k]
    d[:] = [e for e in d if e[0] != k]
    return some(old[0][1]) if old else none()


@m(MT + 'get', MT + 'get_mut')
def _(fn, r, k):
    k = key(k)
    for e in MV(r):
        if e[0] == k:
            return some(Ref(e, 1))
    return none()


@m(MT + 'contains_key')
def _(fn, r, k):
    k = key(k)
    return any(e[0] == k for e in MV(r))


m(MT + 'get_all')(lambda fn, r, k: PyObj('hall', (MV(r), key(k))))


@m("http::header::map::GetAll::<'a, T>::iter", "<http::header::map::GetAll<'a, T> as core::iter::traits::collect::IntoIterator>::into_iter")
def _(fn, r):
    d, k = D(r).d
    return PyObj('hiter', iter([Ref(e, 1) for e in d if e[0] == k]))


m(MT + 'iter', "<&'a http::header::map::HeaderMap<T> as core::iter::traits::collect::IntoIterator>::into_iter")(
    lambda fn, r: PyObj('hiter', iter([tup(Ref([PyObj('hname', e[0])], 0), Ref(e, 1)) for e in MV(r)])))


@m("<http::header::map::ValueIter<'a, T> as core::iter::traits::iterator::Iterator>::next", "<http::header::map::Iter<'a, T> as core::iter::traits::iterator::Iterator>::next")
def _(fn, r):
    for x in D(r).d:
        return some(x)
    return none()


# ---------------------------------------------------------------- reqwest: client construction
CB = 'reqwest::async_impl::client::ClientBuilder::'
m(CB + 'new')(lambda fn: OPAQUE)
m(*[CB + x for x in ('user_agent', 'pool_max_idle_per_host', 'timeout', 'proxy', 'no_proxy')])(lambda fn, *a: OPAQUE)
m(CB + 'build')(lambda fn, b: ok(OPAQUE))
m('<reqwest::async_impl::client::Client as core::clone::Clone>::clone')(lambda fn, r: OPAQUE)
m('task_local_extensions::extensions::Extensions::new')(lambda fn: OPAQUE)
m('retry_policies::policies::exponential_backoff::ExponentialBackoff::builder', 'retry_policies::policies::exponential_backoff::ExponentialBackoffBuilder::build_with_max_retries')(lambda fn, *a: OPAQUE)
# no retries are left
m('<retry_policies::policies::exponential_backoff::ExponentialBackoff as retry_policies::retry_policy::RetryPolicy>::should_retry')(lambda fn, *a: Agg(1, []))

# ---------------------------------------------------------------- reqwest::Response = PyObj('resp', [status u16, headers hmap, body bytes, url])
R = 'reqwest::async_impl::response::Response::'


def status_of(a):
    while type(a) is Agg:
        a = a.f[0]
    return a


@m('<reqwest::async_impl::response::Response as core::convert::From<http::response::Response<T>>>::from')
def _(fn, r):
    head, body = r.f[0], r.f[1]
    return PyObj('resp', [head.f[0], head.f[2], list(S(body))])


def RV(r):
    while type(r) in (Ref, DynRef):
        r = r.c[r.i]
    if type(r) is not PyObj or r.k != 'resp':
        raise Unmodelled('not a Response: %r' % (r,))
    return r.d


m(R + 'status')(lambda fn, r: clone(RV(r)[0]))
m(R + 'headers')(lambda fn, r: Ref(RV(r), 1))


@m(R + 'error_for_status')
def _(fn, r):
    s = CUR.P.conc(status_of(RV(r)[0]))
    return err(PyObj('reqerr', clone(RV(r)[0]))) if 400 <= s < 600 else ok(r)


m('reqwest::error::Error::status')(lambda fn, r: (lambda e: none() if e is None else some(clone(e)))(D(r).d))
m('reqwest::error::Error::new')(lambda fn, *a: PyObj('reqerr', None))
m('<reqwest::error::Error as core::fmt::Display>::fmt', '<reqwest::error::Error as core::fmt::Debug>::fmt')(lambda fn, r, f: (pad(F_(f), list(b'request error')), okf())[1])


def decode(b):
    """UTF-8 with replacement characters, a byte order mark removed"""
    if any(type(x) is not int for x in b):
        for x in b:
            if type(x) is not int and not truth(cmp('lt', x, 128)):
                raise Unmodelled('decoding a symbolic non-ASCII body')
        try:
            k = bytes(x if type(x) is int else 65 for x in b)
            k.decode('utf8')
        except UnicodeDecodeError:
            raise Unmodelled('decoding a symbolic body that is not UTF-8')
        if k[:1] in (b'\xef', b'\xfe', b'\xff'):
            raise Unmodelled('symbolic body with a byte order mark')
        return VecV(list(b))
    b = bytes(b)
    if b[:3] == b'\xef\xbb\xbf':
        b = b[3:]
    elif b[:2] in (b'\xff\xfe', b'\xfe\xff'):
        raise Unmodelled('UTF-16 body')
    return VecV(list(b.decode('utf8', 'replace').encode('utf8')))


m(R + 'text')(lambda fn, r: fut(lambda: ok(decode(RV(r)[2]))))
m(R + 'bytes')(lambda fn, r: futv(ok(VecV(list(RV(r)[2])))))
m(R + 'text::{closure#0}', R + 'bytes::{closure#0}')(poll_stub)
m(R + 'bytes_stream')(lambda fn, r: PyObj('rstream', [list(RV(r)[2])]))


@m('<reqwest::async_impl::decoder::Decoder as futures_core::stream::Stream>::poll_next')
def _(fn, p, cx):
    v = p
    while type(v) is not PyObj:
        v = v.c[v.i] if type(v) in (Ref, DynRef) else v.f[0]
    if v.d:
        b = v.d.pop()
        if b:
            return ready(some(ok(VecV(b))))
    return ready(none())


# ---------------------------------------------------------------- anyhow, chrono
m('anyhow::error::<impl core::convert::From<E> for anyhow::Error>::from')(lambda fn, e: PyObj('anyhow', e))
m('anyhow::__private::must_use')(lambda fn, e: e)
m('anyhow::kind::Adhoc::new', 'anyhow::kind::Trait::new')(lambda fn, k, e: PyObj('anyhow', e))
m('anyhow::kind::AdhocKind::anyhow_kind', 'anyhow::kind::TraitKind::anyhow_kind')(lambda fn, r: OPAQUE)


@m('reqwest::util::replace_headers')
def _(fn, dst, src):
    d, s = MV(dst), MV(src)
    names = []
    for e in s:
        if e[0] not in names:
            names.append(e[0])
    for n in names:
        d[:] = [e for e in d if e[0] != n]
        d.extend(e for e in s if e[0] == n)
    return unit()


# the clock stands still
m('chrono::offset::local::Local::now', 'chrono::offset::utc::Utc::now')(lambda fn: OPAQUE)
m('chrono::datetime::DateTime::<Tz>::to_rfc3339')(lambda fn, r: VecV(list(b'2024-01-01T00:00:00+00:00')))
m('once_cell::sync::OnceCell::<T>::new')(lambda fn: PyObj('once', []))
