"""Models of core::fmt."""
from mcore import *
from mstr import enc, mkString

FM = "core::fmt::Formatter::<'a>::"
FMT = {}


class Fmt:
    """the Formatter: a sink callback + options"""
    __slots__ = ('sink', 'fill', 'align', 'flags', 'width', 'prec')

    def __init__(self, sink):
        self.sink = sink
        self.flags = 0
        self.fill = 32
        self.align = 3
        self.width = None
        self.prec = None


def F_(f):
    v = D(f) if type(f) is Ref else f
    if type(v) is Agg:
        v = v.f[0]
    return v.d


def mkfmt(sink):
    return Ref([PyObj('fmt', Fmt(sink))], 0)


class Poison:
    """a piece of Debug output that is not modelled: it may be carried around, not looked at"""

    def no(self, *a):
        raise Unmodelled('Debug output is examined')
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __add__ = __radd__ = __sub__ = __rsub__ = no
    __hash__ = __index__ = __int__ = __bool__ = __rshift__ = __lshift__ = no

    def __repr__(self):
        return '<debug>'

    def __deepcopy__(self, m):
        return self


POISON = Poison()


def okf():
    return ok(unit())


def call_fmt(inst, ref, fobj):
    """call a fmt impl; inst is an instance id or a callable"""
    r = VM.F[inst](ref, fobj) if type(inst) is int else inst(ref, fobj)
    return r


def argnew(what):
    def g(fn, r):
        return PyObj('arg', (what, r, VM.impls.get((fn['ga'][0], what)), fn['ga'][0]))
    return g


m("core::fmt::rt::Argument::<'_>::new_display", needs=[('display', 0)])(argnew('display'))
m("core::fmt::rt::Argument::<'_>::new_debug", "core::fmt::rt::Argument::<'_>::new_debug_noop", needs=[('debug', 0)])(argnew('debug'))
for k in ('lower_hex', 'upper_hex', 'lower_exp', 'octal', 'binary', 'pointer', 'upper_exp'):
    m("core::fmt::rt::Argument::<'_>::new_" + k)(argnew(k))
m("core::fmt::rt::Argument::<'_>::from_usize")(lambda fn, r: PyObj('arg', ('usize', r, None, None)))


@m("core::fmt::Arguments::<'a>::new")
def _(fn, t, args):
    tl = D(t)
    return PyObj('args', (tl.f if type(tl) is Agg else S(tl), D(args).f))


@m("core::fmt::rt::<impl core::fmt::Arguments<'a>>::x")
def _(fn, *a):
    pass


@m("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst", "core::fmt::rt::<impl core::fmt::Arguments<'_>>::new_const", "core::fmt::Arguments::<'a>::new_const")
def _(fn, s):
    if type(s) is Ref:
        a = D(s)
        return PyObj('args', (None, [x for p in a.f for x in S(p)]))
    return PyObj('args', (None, list(S(s))))


@m("core::fmt::Arguments::<'a>::as_str", "core::fmt::Arguments::<'a>::as_statically_known_str")
def _(fn, r):
    a = D(r)
    if a.d[0] is None and 'static' not in fn['n']:
        return some(mkstr(a.d[1]))
    return none()


def fmt_arg(a, f, opts=None):
    what, r, inst, t = a.d
    fo = Fmt(f.sink)
    if opts:
        fo.flags, fo.width, fo.prec, fo.fill, fo.align = opts
    o = Ref([PyObj('fmt', fo)], 0)
    if what in ('lower_hex', 'upper_hex', 'octal', 'binary'):
        v = r
        while type(v) is Ref:
            v = D(v)
        v = CUR.P.conc(v)
        tt = VM.types[t]
        while tt['k'] == 'ref':
            tt = VM.types[tt['to']]
        w = tt.get('w', 64)
        v &= (1 << w) - 1
        s = {'lower_hex': '%x', 'upper_hex': '%X', 'octal': '%o'}.get(what)
        s = s % v if s else bin(v)[2:]
        pad_int(fo, s.encode())
        return True
    if inst is None:
        if what == 'debug':
            fo.sink([POISON])
            return True
        raise Unmodelled('no %s impl for %s' % (what, VM.tname(t)))
    return VM.F[inst](r, o).v == 0


def write_args(args, f):
    """interpret the format template; returns True unless an impl failed"""
    t, al = args.d
    if t is None:
        f.sink(al)
        return True
    i = 0
    n = 0
    while True:
        b = t[i]
        if b == 0:
            return True
        i += 1
        if b < 0x80:
            f.sink(t[i:i + b])
            i += b
        elif b == 0x80:
            k = t[i] | t[i + 1] << 8
            i += 2
            f.sink(t[i:i + k])
            i += k
        elif b == 0xC0:
            if not fmt_arg(al[n], f):
                return False
            n += 1
        else:
            flags, width, prec = 0, None, None
            fill, align = 32, 3
            if b & 1:
                flags = int.from_bytes(bytes(t[i:i + 4]), 'little')
                i += 4
                fill = flags & 0x1fffff
                align = flags >> 29 & 3
            if b & 2:
                width = t[i] | t[i + 1] << 8
                i += 2
            if b & 4:
                prec = t[i] | t[i + 1] << 8
                i += 2
            idx = n
            if b & 8:
                idx = t[i] | t[i + 1] << 8
                i += 2
            if b & 16:
                width = CUR.P.conc(D(al[width].d[1]))
            if b & 32:
                prec = CUR.P.conc(D(al[prec].d[1]))
            if not fmt_arg(al[idx], f, (flags, width, prec, fill, align)):
                return False
            n = idx + 1


def render(args):
    out = []
    f = Fmt(out.extend)
    if not write_args(args, f):
        panic('a formatting trait implementation returned an error when the underlying stream did not')
    return out


@m('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def _(fn, a):
    return VecV(render(a))


def dyn_sink(w):
    """sink for a `&mut dyn Write` / concrete writer reference"""
    if type(w) is DynRef:
        vt = VM.vts[w.vt]['m']
        # [.., write_str, write_char, write_fmt]
        ws = vt[-3]
        thin = Ref(w.c, w.i)

        def sink(b):
            r = VM.F[ws](thin, mkstr(list(b)))
            if r.v != 0:
                raise FmtErr()
        return sink
    v = D(w)
    if type(v) is VecV:
        return v.l.extend
    if type(v) is PyObj and v.k == 'fmt':
        return v.d.sink
    raise Unmodelled('fmt sink %r' % (w,))


class FmtErr(Exception):
    pass


@m('core::fmt::write')
def _(fn, w, a):
    try:
        return okf() if write_args(a, Fmt(dyn_sink(w))) else err(Agg(0, []))
    except FmtErr:
        return err(Agg(0, []))


@m(FM + 'write_fmt', "<core::fmt::Formatter<'_> as core::fmt::Write>::write_fmt")
def _(fn, f, a):
    return okf() if write_args(a, F_(f)) else err(Agg(0, []))


@m(FM + 'write_str', "<core::fmt::Formatter<'_> as core::fmt::Write>::write_str")
def _(fn, f, s):
    F_(f).sink(list(S(s)))
    return okf()


@m(FM + 'write_char', "<core::fmt::Formatter<'_> as core::fmt::Write>::write_char")
def _(fn, f, c):
    F_(f).sink(enc(c))
    return okf()


@m('<alloc::string::String as core::fmt::Write>::write_str')
def _(fn, s, t):
    D(s).l.extend(S(t))
    return okf()


@m('<alloc::string::String as core::fmt::Write>::write_char')
def _(fn, s, c):
    D(s).l.extend(enc(c))
    return okf()


@m('core::fmt::Write::write_fmt', '<&mut W as core::fmt::Write::write_fmt::SpecWriteFmt>::spec_write_fmt', '<W as core::fmt::Write::write_fmt::SpecWriteFmt>::spec_write_fmt',
   '<alloc::string::String as core::fmt::Write>::write_fmt')
def _(fn, w, a):
    v = D(w)
    if type(v) is VecV:
        v.l.extend(render(a))
        return okf()
    if type(v) is PyObj and v.k == 'fmt':
        return okf() if write_args(a, v.d) else err(Agg(0, []))
    if type(v) is Ref and type(D(v)) is VecV:
        D(v).l.extend(render(a))
        return okf()
    raise Unmodelled('write_fmt on %r ga=%s' % (v, [VM.tname(t) for t in fn['ga']]))


def nchars(b):
    return sum(1 for x in b if type(x) is E or not (0x80 <= x < 0xc0))


def pad(f, b):
    b = list(b)
    if f.prec is not None:
        out, k = [], 0
        for x in b:
            if type(x) is E or not (0x80 <= x < 0xc0):
                if k == f.prec:
                    break
                k += 1
            out.append(x)
        b = out
    if f.width is not None:
        n = f.width - nchars(b)
        if n > 0:
            p = enc(f.fill)
            if f.align == 1:
                b = p * n + b
            elif f.align == 2:
                b = p * (n // 2) + b + p * (n - n // 2)
            else:
                b = b + p * n
    f.sink(b)


def pad_int(f, b):
    b = list(b)
    pre = []
    if f.flags >> 23 & 1:
        pre = []
    if f.width is not None:
        n = f.width - len(b)
        if n > 0:
            if f.flags >> 24 & 1:
                k = 1 if b and b[0] == 45 else 0
                b = b[:k] + [48] * n + b[k:]
            else:
                p = enc(f.fill)
                if f.align == 0:
                    b = b + p * n
                elif f.align == 2:
                    b = p * (n // 2) + b + p * (n - n // 2)
                else:
                    b = p * n + b
    f.sink(b)


@m(FM + 'pad')
def _(fn, f, s):
    pad(F_(f), S(s))
    return okf()


@m('<str as core::fmt::Display>::fmt', '<alloc::string::String as core::fmt::Display>::fmt')
def _(fn, s, f):
    pad(F_(f), S(s))
    return okf()


@m("<alloc::borrow::Cow<'_, B> as core::fmt::Display>::fmt")
def _(fn, s, f):
    pad(F_(f), S(D(s).f[0]))
    return okf()


@m('<char as core::fmt::Display>::fmt')
def _(fn, c, f):
    pad(F_(f), enc(D(c)))
    return okf()


@m('<bool as core::fmt::Display>::fmt')
def _(fn, c, f):
    pad(F_(f), b'true' if truth(D(c)) else b'false')
    return okf()


def dispint(fn, r, f):
    v = D(r)
    v = CUR.P.conc(v)
    pad_int(F_(f), b'%d' % v)
    return okf()


for t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128'):
    for p in ('core::fmt::num::imp::<impl core::fmt::Display for %s>::fmt', 'core::fmt::num::<impl core::fmt::Display for %s>::fmt', '<%s as core::fmt::Display>::fmt',
              'core::fmt::num::<impl core::fmt::Debug for %s>::fmt'):
        m(p % t)(dispint)


@m('<alloc::boxed::Box<T, A> as core::fmt::Display>::fmt', '<alloc::rc::Rc<T, A> as core::fmt::Display>::fmt', '<alloc::sync::Arc<T, A> as core::fmt::Display>::fmt', needs=[('display', 0)])
def _(fn, r, f):
    x = D(r)
    t = VM.types[fn['ga'][0]]
    if t['k'] == 'dyn':
        vt = VM.vts[x.vt]['m']
        raise Unmodelled('dyn display')
    return VM.F[impl(fn, 0, 'display')](x, f)


@m('<str as core::fmt::Debug>::fmt', '<alloc::string::String as core::fmt::Debug>::fmt')
def _(fn, s, f):
    out = [34]
    for x in S(s):
        if type(x) is E:
            for q, e in ((34, b'\\"'), (92, b'\\\\'), (10, b'\\n'), (13, b'\\r'), (9, b'\\t')):
                if truth(cmp('eq', x, q)):
                    out += e
                    break
            else:
                out.append(x)
        elif x == 34:
            out += b'\\"'
        elif x == 92:
            out += b'\\\\'
        elif x == 10:
            out += b'\\n'
        elif x == 13:
            out += b'\\r'
        elif x == 9:
            out += b'\\t'
        else:
            out.append(x)
    out.append(34)
    F_(f).sink(out)
    return okf()


def dbg(fn, *a):
    f = a[-1] if type(a[-1]) is Ref and type(D(a[-1])) is PyObj else None
    for x in a:
        if type(x) is Ref and type(D(x)) is PyObj and D(x).k == 'fmt':
            f = x
    F_(f).sink([POISON])
    return okf()


for k in range(1, 6):
    m(FM + 'debug_struct_field%d_finish' % k)(dbg)
    m(FM + 'debug_tuple_field%d_finish' % k)(dbg)
m(FM + 'debug_struct_fields_finish', FM + 'debug_tuple_fields_finish')(dbg)


@m(FM + 'debug_c_like_enum_write_str')
def _(fn, f, names, start):
    F_(f).sink(list(bytes(S(names))[start:].split(b' ')[0]))
    return okf()



m('<bool as core::fmt::Debug>::fmt', '<char as core::fmt::Debug>::fmt', '<[T] as core::fmt::Debug>::fmt', '<alloc::vec::Vec<T, A> as core::fmt::Debug>::fmt',
  '<() as core::fmt::Debug>::fmt', '<core::option::Option<T> as core::fmt::Debug>::fmt', 'core::array::<impl core::fmt::Debug for [T; N]>::fmt',
  "<core::fmt::Arguments<'_> as core::fmt::Debug>::fmt",
  '<alloc::boxed::Box<T, A> as core::fmt::Debug>::fmt', '<alloc::sync::Arc<T, A> as core::fmt::Debug>::fmt', '<alloc::rc::Rc<T, A> as core::fmt::Debug>::fmt')(dbg)


@m("<core::fmt::Arguments<'_> as core::fmt::Display>::fmt")
def _(fn, a, f):
    return okf() if write_args(D(a), F_(f)) else err(Agg(0, []))


class DB:
    def __init__(self, f):
        self.f = f


@m(FM + 'debug_struct', FM + 'debug_tuple', FM + 'debug_list', FM + 'debug_map', FM + 'debug_set')
def _(fn, f, *a):
    return PyObj('dbgb', f)


mp("core::fmt::builders::")(lambda fn, b, *a: (okf() if fn['n'].endswith('finish') or fn['n'].endswith('finish_non_exhaustive') else b))
m(FM + 'alternate')(lambda fn, f: bool(F_(f).flags >> 23 & 1))
m(FM + 'width')(lambda fn, f: none() if F_(f).width is None else some(F_(f).width))
m(FM + 'precision')(lambda fn, f: none() if F_(f).prec is None else some(F_(f).prec))


@m('<T as alloc::string::SpecToString>::spec_to_string', '<T as alloc::string::ToString>::to_string', needs=[('display', 0)])
def _(fn, r):
    t = VM.types[fn['ga'][0]]
    if t['k'] == 'str' or t.get('n') == 'alloc::string::String':
        return VecV(list(S(r)))
    out = []
    f = mkfmt(out.extend)
    i = VM.impls.get((fn['ga'][0], 'display'))
    if i is None:
        raise Unmodelled('no display for ' + VM.tname(fn['ga'][0]))
    x = VM.F[i](r, f)
    if x.v != 0:
        panic('a Display implementation returned an error unexpectedly')
    return VecV(out)


# ---------------------------------------------------------------- itoa
m('itoa::Buffer::new')(lambda fn: PyObj('itoa', None))


@m('itoa::Buffer::format')
def _(fn, r, v):
    b = list(b"%d" % CUR.P.conc(v))
    return SliceRef(b, 0, len(b))
