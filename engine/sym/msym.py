"""The harness intrinsics (vh::sym) and tracing/logging no-ops."""
from mcore import *
from expr import arith, cmp

import os
OBSDBG = os.environ.get('OBSDBG')
Y = 'vh::sym::'


@m(Y + 'choose')
def _(fn, n):
    return CUR.P.choose(CUR.P.conc(n), record=True)


@m(Y + 'byte_in')
def _(fn, s):
    mask = 0
    for b in S(s):
        mask |= 1 << b
    return CUR.P.new_byte(mask)


@m(Y + 'u8')
def _(fn):
    return CUR.P.new_byte(ALL)


@m(Y + 'bool')
def _(fn):
    return CUR.P.new_wide(0)


@m(Y + 'u32')
def _(fn):
    return CUR.P.new_wide(32)


@m(Y + 'u64')
def _(fn):
    return CUR.P.new_wide(64)


@m(Y + 'assume')
def _(fn, c):
    CUR.P.assume(c)
    return unit()


@m(Y + 'check')
def _(fn, c, label):
    CUR.P.check(c, bytes(S(label)).decode())
    return unit()


@m(Y + 'cover')
def _(fn, label):
    CUR.P.covers.add(bytes(S(label)).decode())
    return unit()


@m(Y + 'is_native')
def _(fn):
    return False


@m(Y + 'observe')
def _(fn, label, s):
    if OBSDBG:
        print('OBS', bytes(S(label)), bytes(CUR.P.conc(x) for x in S(s)))
    CUR.P.obs.append((bytes(S(label)).decode(), list(S(s))))
    return unit()


@m(Y + 'hash_order')
def _(fn, b):
    CUR.P.env['hash_order'] = truth(b)
    return unit()


def SPAN(o, n):
    return Agg(0, [Agg(0, [o]), n])


@m('<miette::protocol::SourceSpan as core::convert::From<(usize, usize)>>::from')
def _(fn, t):
    return SPAN(t.f[0], t.f[1])


@m('<miette::protocol::SourceSpan as core::convert::From<core::ops::range::Range<usize>>>::from')
def _(fn, r):
    a, b = r.f
    return SPAN(a, 0 if truth(cmp('ge', a, b)) else arith('sub', b, a, 64, False))


m('<miette::protocol::SourceSpan as core::convert::From<usize>>::from')(lambda fn, a: SPAN(a, 0))
m('<miette::protocol::SourceOffset as core::convert::From<usize>>::from')(lambda fn, a: Agg(0, [a]))
m('<miette::protocol::SourceSpan as core::clone::Clone>::clone')(lambda fn, r: SPAN(D(r).f[0].f[0], D(r).f[1]))
m('<miette::protocol::SourceSpan as core::cmp::PartialEq>::eq')(lambda fn, a, b: deq(D(a), D(b)))
m('miette::protocol::SourceSpan::offset')(lambda fn, r: D(r).f[0].f[0])
m('miette::protocol::SourceSpan::len')(lambda fn, r: D(r).f[1])
m('miette::protocol::SourceOffset::offset')(lambda fn, r: D(r).f[0])
# where a diagnostic points is not modelled: always the start of the source
m('miette::protocol::SourceOffset::from_location')(lambda fn, *a: Agg(0, [0]))
m('miette::named_source::NamedSource::new')(lambda fn, *a: PyObj('NamedSource', None))
