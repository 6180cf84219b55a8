"""io::Error.  PyObj('ioerr', (kind variant, message bytes))."""
from mcore import *
from mfmt import pad, F_, okf

KIND = dict(NotFound=0, PermissionDenied=1, AlreadyExists=12, NotADirectory=14, IsADirectory=15, DirectoryNotEmpty=16, InvalidInput=20, InvalidData=21,
            UnexpectedEof=37, Other=40)
NAME = {v: k for k, v in KIND.items()}


def ioerr(kind, msg=None):
    return PyObj('ioerr', (KIND[kind], list((msg or kind).encode())))


def EV(r):
    while type(r) in (Ref, DynRef):
        r = r.c[r.i]
    if type(r) is Agg and len(r.f) == 1:
        return EV(r.f[0])
    if type(r) is not PyObj or r.k != 'ioerr':
        raise Unmodelled('not an io::Error: %r' % (r,))
    return r.d


EN = ['alloc::io::error::<impl core::io::error::Error>::', 'core::io::error::Error::', 'std::io::error::Error::', 'std::io::error::<impl core::io::error::Error>::']


@m(*[e + 'new' for e in EN], needs=[('display', 0)])
def _(fn, kind, payload):
    if type(payload) in (SliceRef, VecV):
        b = list(S(payload))
    else:
        b = list(b'custom error')
    return PyObj('ioerr', (kind.v, b))


@m(*[e + 'other' for e in EN])
def _(fn, payload):
    return PyObj('ioerr', (KIND['Other'], list(S(payload)) if type(payload) in (SliceRef, VecV) else list(b'custom error')))


@m(*[e + 'kind' for e in EN])
def _(fn, r):
    return Agg(EV(r)[0], [])


@m(*[e + 'raw_os_error' for e in EN])
def _(fn, r):
    return none()


@m(*([e + 'from' for e in EN] + ['<%s::io::error::Error as core::convert::From<%s::io::error::ErrorKind>>::from' % (a, b) for a in ('core', 'std') for b in ('core', 'std')]))
def _(fn, k):
    return PyObj('ioerr', (k.v, list(NAME.get(k.v, 'io error').encode())))


for _c in ('core', 'std', 'alloc'):
    m('<%s::io::error::Error as core::fmt::Display>::fmt' % _c, '<%s::io::error::Error as core::fmt::Debug>::fmt' % _c)(
        lambda fn, r, f: (pad(F_(f), EV(r)[1]), okf())[1])


@m(*['walkdir::error::<impl core::convert::From<walkdir::error::Error> for %s::io::error::Error>::from' % c for c in ('core', 'std')],
   'walkdir::error::<impl core::convert::From<walkdir::error::Error> for core::io::error::Error>::from_')
def _(fn, e):
    return e


@m('core::io::write::Write::write_all', needs=[('write', 0)])
def _(fn, r, buf):
    b = list(S(buf))
    while b:
        x = VM.F[impl(fn, 0, 'write')](r, SliceRef(b, 0, len(b)))
        if x.v == 1:
            if EV(x.f[0])[0] == 35:
                continue
            return x
        n = CUR.P.conc(x.f[0])
        if n == 0:
            return err(ioerr('Other', 'failed to write whole buffer'))
        b = b[n:]
    return ok(unit())


VW = 'alloc::io::impls::<impl core::io::write::Write for alloc::vec::Vec<u8, A>>::'


@m(VW + 'write', VW + 'write_all')
def _(fn, r, buf):
    b = list(S(buf))
    D(r).l.extend(b)
    return ok(len(b)) if fn['n'].endswith('write') else ok(unit())


m(VW + 'flush')(lambda fn, r: ok(unit()))
