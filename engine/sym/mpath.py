"""std::path / OsStr models (unix semantics).  Path, OsStr are byte slices."""
from mcore import *
from mstr import utf8_ok, _mkown, ordering, cmp_lists, mkString, charsiter, matches_fwd
from vm import PyObj

P = 'std::path::Path::'
SLASH = 47
DOT = 46


def is_(b, c):
    return truth(cmp('eq', b, c))


def PB(x):
    """bytes of any AsRef<Path> argument"""
    t = type(x)
    if t in (SliceRef, VecV):
        return S(x)
    if t is Ref or t is DynRef:
        return PB(x.c[x.i])
    if t is Agg:
        if not x.f:
            return [None, b'/', b'.', b'..'][x.v]
        return PB(x.f[0])
    raise Unmodelled('path of %r' % (x,))


ROOT, CUR_, PARENT, NORMAL = 1, 2, 3, 4


def comps(l):
    """list of (kind, start, end)"""
    out = []
    i = 0
    n = len(l)
    rooted = n > 0 and is_(l[0], SLASH)
    if rooted:
        out.append((ROOT, 0, 1))
        i = 1
    first = True
    while i <= n:
        j = i
        while j < n and not is_(l[j], SLASH):
            j += 1
        if j > i:
            k = j - i
            if k == 1 and is_(l[i], DOT):
                if first and not rooted:
                    out.append((CUR_, i, j))
            elif k == 2 and is_(l[i], DOT) and is_(l[i + 1], DOT):
                out.append((PARENT, i, j))
            else:
                out.append((NORMAL, i, j))
        first = False
        i = j + 1
        if j >= n:
            break
    return out


def compval(l, c):
    k, a, b = c
    if k == NORMAL:
        return Agg(4, [SliceRef(l, a, b - a)])
    return Agg(k, [])


def asl(p):
    """own list + slice for a path argument"""
    if type(p) is SliceRef:
        return S(p)
    return PB(p)


def mkpath(l):
    return SliceRef(l, 0, len(l))


def ospath(s, a, b):
    return SliceRef(s.l, s.o + a, b - a)


# constructors / conversions: Path and OsStr are the same representation
m(P + 'new', 'std::ffi::os_str::OsStr::new')(lambda fn, x: mkref(x))


def mkref(x):
    if type(x) is SliceRef:
        return x
    v = D(x)
    if type(v) is SliceRef:
        return v
    if type(v) is VecV:
        return SliceRef(v.l, 0, len(v.l))
    return mkpath(PB(x))


def own(fn, x):
    return VecV(list(PB(x)))


def ident(fn, x):
    return x


m('<std::path::PathBuf as core::convert::From<&T>>::from', '<std::path::PathBuf as core::clone::Clone>::clone', P + 'to_path_buf', '<std::path::Path as alloc::borrow::ToOwned>::to_owned',
  'std::ffi::os_str::OsStr::to_os_string', '<std::ffi::os_str::OsString as core::clone::Clone>::clone', 'std::ffi::os_str::OsStr::to_owned', '<std::ffi::os_str::OsStr as alloc::borrow::ToOwned>::to_owned',
  '<std::ffi::os_str::OsString as core::convert::From<&T>>::from', "<std::path::PathBuf as core::convert::From<alloc::borrow::Cow<'a, std::path::Path>>>::from",
  '<std::ffi::os_str::OsString as std::ffi::os_str::OsString::x>')(own)
m('<std::path::PathBuf as core::convert::From<alloc::string::String>>::from', '<std::path::PathBuf as core::convert::From<std::ffi::os_str::OsString>>::from',
  '<std::ffi::os_str::OsString as core::convert::From<alloc::string::String>>::from', '<std::ffi::os_str::OsString as core::convert::From<std::path::PathBuf>>::from',
  'std::path::PathBuf::into_os_string', 'std::path::PathBuf::x')(ident)
m('std::path::PathBuf::into_boxed_path')(lambda fn, x: SliceRef(x.l, 0, len(x.l)))
m('std::path::PathBuf::new', 'std::ffi::os_str::OsString::new', '<std::path::PathBuf as core::default::Default>::default')(lambda fn: VecV([]))
m('<std::path::PathBuf as core::str::traits::FromStr>::from_str')(lambda fn, s: ok(VecV(list(S(s)))))
m('std::path::<impl core::convert::AsRef<std::path::Path> for str>::as_ref', 'std::path::<impl core::convert::AsRef<std::path::Path> for alloc::string::String>::as_ref', 'std::path::PathBuf::as_path', '<std::path::PathBuf as core::ops::deref::Deref>::deref', '<std::path::PathBuf as core::convert::AsRef<std::path::Path>>::as_ref',
  '<std::path::PathBuf as core::borrow::Borrow<std::path::Path>>::borrow', '<std::path::PathBuf as core::convert::AsRef<std::ffi::os_str::OsStr>>::as_ref',
  '<std::ffi::os_str::OsString as core::ops::deref::Deref>::deref', '<std::ffi::os_str::OsString as core::convert::AsRef<std::path::Path>>::as_ref',
  '<std::ffi::os_str::OsString as core::convert::AsRef<std::ffi::os_str::OsStr>>::as_ref',
  '<alloc::string::String as core::convert::AsRef<std::path::Path>>::as_ref', '<alloc::string::String as core::convert::AsRef<std::ffi::os_str::OsStr>>::as_ref',
  '<str as core::convert::AsRef<std::path::Path>>::as_ref', '<str as core::convert::AsRef<std::ffi::os_str::OsStr>>::as_ref',
  '<std::path::Path as core::convert::AsRef<std::path::Path>>::as_ref', '<std::path::Path as core::convert::AsRef<std::ffi::os_str::OsStr>>::as_ref',
  '<std::ffi::os_str::OsStr as core::convert::AsRef<std::path::Path>>::as_ref', '<std::ffi::os_str::OsStr as core::convert::AsRef<std::ffi::os_str::OsStr>>::as_ref',
  "<alloc::borrow::Cow<'_, std::ffi::os_str::OsStr> as core::convert::AsRef<std::path::Path>>::as_ref", "<std::path::Component<'_> as core::convert::AsRef<std::path::Path>>::as_ref",
  "<std::path::Component<'_> as core::convert::AsRef<std::ffi::os_str::OsStr>>::as_ref",
  P + 'as_os_str', 'std::path::PathBuf::as_os_str', 'std::ffi::os_str::OsStr::as_encoded_bytes', '<std::ffi::os_str::OsStr as std::os::unix::ffi::os_str::OsStrExt>::as_bytes',
  '<std::ffi::os_str::OsStr as std::os::unix::ffi::os_str::OsStrExt>::from_bytes', 'std::os::unix::ffi::os_str::OsStrExt::as_bytes', "std::path::Component::<'a>::as_os_str",
  'std::path::PathBuf::as_mut_os_string')(lambda fn, x: x if type(x) is SliceRef else mkref(x) if type(x) is Ref else mkpath(PB(x)))


@m(P + 'join')
def _(fn, p, q):
    a, b = list(PB(p)), list(PB(q))
    return VecV(joinb(a, b))


def joinb(a, b):
    if b and is_(b[0], SLASH):
        return list(b)
    if a and not is_(a[-1], SLASH):
        return list(a) + [SLASH] + list(b)
    return list(a) + list(b)


@m('std::path::PathBuf::push')
def _(fn, p, q):
    v = D(p)
    v.l[:] = joinb(list(v.l), list(PB(q)))
    return unit()


def parent_end(l):
    cs = comps(l)
    if not cs or cs[-1][0] == ROOT:
        return None
    return cs[-2][2] if len(cs) > 1 else 0


@m(P + 'parent')
def _(fn, p):
    p = mkref(p)
    e = parent_end(S(p))
    return none() if e is None else some(ospath(p, 0, e))


@m('std::path::PathBuf::pop')
def _(fn, p):
    v = D(p)
    e = parent_end(v.l)
    if e is None:
        return False
    del v.l[e:]
    return True


def fname(l):
    cs = comps(l)
    if not cs or cs[-1][0] != NORMAL:
        return None
    return cs[-1][1], cs[-1][2]


@m(P + 'file_name')
def _(fn, p):
    p = mkref(p)
    f = fname(S(p))
    return none() if f is None else some(ospath(p, *f))


def split_ext(l, a, b):
    """(stem_end, ext_start or None) within l[a:b]"""
    if b - a == 2 and is_(l[a], DOT) and is_(l[a + 1], DOT):
        return b, None
    for i in range(b - 1, a - 1, -1):
        if is_(l[i], DOT):
            if i == a:
                return b, None
            return i, i + 1
    return b, None


@m(P + 'extension')
def _(fn, p):
    p = mkref(p)
    l = S(p)
    f = fname(l)
    if f is None:
        return none()
    s, e = split_ext(l, *f)
    return none() if e is None else some(ospath(p, e, f[1]))


@m(P + 'file_stem')
def _(fn, p):
    p = mkref(p)
    l = S(p)
    f = fname(l)
    if f is None:
        return none()
    s, e = split_ext(l, *f)
    return some(ospath(p, f[0], s))


def set_ext(l, ext):
    f = fname(l)
    if f is None:
        return None
    s, e = split_ext(l, *f)
    out = list(l[:s])
    if ext:
        out += [DOT] + list(ext)
    return out


@m(P + 'with_extension')
def _(fn, p, e):
    l = list(PB(p))
    r = set_ext(l, PB(e))
    return VecV(l if r is None else r)


@m('std::path::PathBuf::set_extension')
def _(fn, p, e):
    v = D(p)
    r = set_ext(v.l, PB(e))
    if r is None:
        return False
    v.l[:] = r
    return True


@m(P + 'with_file_name')
def _(fn, p, n):
    l = list(PB(p))
    if fname(l) is not None:
        l = l[:parent_end(l)]
    return VecV(joinb(l, list(PB(n))))


@m('std::path::PathBuf::set_file_name')
def _(fn, p, n):
    v = D(p)
    l = list(v.l)
    if fname(l) is not None:
        l = l[:parent_end(l)]
    v.l[:] = joinb(l, list(PB(n)))
    return unit()


def comp_eq(l1, c1, l2, c2):
    if c1[0] != c2[0]:
        return False
    if c1[0] == NORMAL:
        return eqlist(l1[c1[1]:c1[2]], l2[c2[1]:c2[2]])
    return True


def patheq(a, b):
    if a is b:
        return True
    x, y = comps(a), comps(b)
    if len(x) != len(y):
        return False
    return conj(comp_eq(a, c, b, d) for c, d in zip(x, y))


def _eqs():
    ps = ['std::path::Path', 'std::path::PathBuf']
    os_ = ['std::ffi::os_str::OsStr', 'std::ffi::os_str::OsString']
    amp = ['', '&', "&'a ", "&'b ", "&'_ "]
    cows = ["alloc::borrow::Cow<'a, std::path::Path>", "alloc::borrow::Cow<'a, std::ffi::os_str::OsStr>"]
    base = ps + os_ + ['str', 'alloc::string::String'] + cows
    for x in base:
        if x in ('str', 'alloc::string::String'):
            continue
        for y in base:
            pth = x in ps or y in ps or 'Path' in x or 'Path' in y
            f = (lambda fn, a, b: patheq(list(PB(a)), list(PB(b)))) if pth else (lambda fn, a, b: eqlist(list(PB(a)), list(PB(b))))
            ns = ['<%s%s as core::cmp::PartialEq<%s%s>>::eq' % (p, x, q, y) for p in amp for q in amp]
            ns += ['<%s as core::cmp::PartialEq>::eq' % x] if x == y else []
            ns += ['<%s%s as core::cmp::PartialEq<%s%s>>::eq' % (p, y, q, x) for p in amp for q in amp]
            for n in ns:
                if n not in VM.models:
                    m(n)(f)


_eqs()


def pathcmp(a, b):
    x, y = comps(a), comps(b)
    for c, d in zip(x, y):
        if c[0] != d[0]:
            return -1 if c[0] < d[0] else 1
        if c[0] == NORMAL:
            r = cmp_lists(a[c[1]:c[2]], b[d[1]:d[2]])
            if r:
                return r
    return (len(x) > len(y)) - (len(x) < len(y))


m('<std::path::Path as core::cmp::Ord>::cmp', '<std::path::PathBuf as core::cmp::Ord>::cmp')(lambda fn, a, b: ordering(pathcmp(list(PB(a)), list(PB(b)))))
m('<std::path::Path as core::cmp::PartialOrd>::partial_cmp', '<std::path::PathBuf as core::cmp::PartialOrd>::partial_cmp')(lambda fn, a, b: some(ordering(pathcmp(list(PB(a)), list(PB(b))))))


@m(P + 'starts_with')
def _(fn, p, q):
    a, b = list(PB(p)), list(PB(q))
    x, y = comps(a), comps(b)
    if len(y) > len(x):
        return False
    return conj(comp_eq(a, c, b, d) for c, d in zip(x, y))


@m(P + 'ends_with')
def _(fn, p, q):
    a, b = list(PB(p)), list(PB(q))
    x, y = comps(a), comps(b)
    if len(y) > len(x):
        return False
    return conj(comp_eq(a, c, b, d) for c, d in zip(x[len(x) - len(y):], y))


@m(P + 'strip_prefix', P + '_strip_prefix')
def _(fn, p, q):
    p = mkref(p)
    a, b = S(p), list(PB(q))
    x, y = comps(a), comps(b)
    if len(y) > len(x) or not truth(conj(comp_eq(a, c, b, d) for c, d in zip(x, y))):
        return err(Agg(0, [unit()]))
    r = x[len(y):]
    if not r:
        return ok(ospath(p, len(a), len(a)))
    return ok(ospath(p, r[0][1], r[-1][2]))


@m(P + 'is_absolute', P + 'has_root')
def _(fn, p):
    l = PB(p)
    return len(l) > 0 and cmp('eq', l[0], SLASH)


@m(P + 'is_relative')
def _(fn, p):
    l = PB(p)
    return not l or bnot(cmp('eq', l[0], SLASH))


@m(P + 'components')
def _(fn, p):
    p = mkref(p)
    l = S(p)
    cs = comps(l)
    return PyIter([compval(l, c) for c in cs], x=('comps', p, cs))


@m(P + 'iter', "<&'a std::path::Path as core::iter::traits::collect::IntoIterator>::into_iter", "<&'a std::path::PathBuf as core::iter::traits::collect::IntoIterator>::into_iter")
def _(fn, p):
    p = mkref(p)
    l = S(p)
    return PyIter([ospath(p, c[1], c[2]) for c in comps(l)])


@m(P + 'ancestors')
def _(fn, p):
    p = mkref(p)

    def gen():
        e = p.n
        cur = ospath(p, 0, e)
        while True:
            yield cur
            e = parent_end(S(cur))
            if e is None:
                return
            cur = ospath(p, 0, e)
    return PyIter(gen())


@m("std::path::Components::<'a>::as_path")
def _(fn, r):
    it = D(r)
    _, p, cs = it.x
    it.force()
    c = cs[it.i:it.j]
    if not c:
        return ospath(p, p.n, p.n)
    return ospath(p, c[0][1], c[-1][2])


@m('<std::path::PathBuf as core::iter::traits::collect::FromIterator<P>>::from_iter', needs=[('iter', 1)])
def _(fn, it):
    out = []
    for x in iterate(fn, 1, it):
        out = joinb(out, list(PB(x)))
    return VecV(out)


@m('<std::path::PathBuf as core::iter::traits::collect::Extend<P>>::extend', needs=[('iter', 1)])
def _(fn, p, it):
    v = D(p)
    for x in iterate(fn, 1, it):
        v.l[:] = joinb(list(v.l), list(PB(x)))
    return unit()


@m("<std::path::Component<'a> as core::cmp::PartialEq>::eq")
def _(fn, a, b):
    return deq(D(a), D(b))


@m(P + 'to_str', 'std::ffi::os_str::OsStr::to_str')
def _(fn, p):
    p = mkref(p)
    return some(p) if utf8_ok(S(p)) else none()


@m(P + 'to_string_lossy', 'std::ffi::os_str::OsStr::to_string_lossy')
def _(fn, p):
    p = mkref(p)
    if utf8_ok(S(p)):
        return Agg(0, [p])
    raise Unmodelled('to_string_lossy of non-utf8')


@m('std::ffi::os_str::OsString::into_string')
def _(fn, v):
    return ok(v) if utf8_ok(v.l) else err(v)


@m('std::ffi::os_str::OsString::push')
def _(fn, p, q):
    D(p).l.extend(PB(q))
    return unit()


m('std::ffi::os_str::OsStr::is_empty')(lambda fn, p: len(PB(p)) == 0)
m('std::ffi::os_str::OsStr::len')(lambda fn, p: len(PB(p)))
m(P + 'display', 'std::ffi::os_str::OsStr::display')(lambda fn, p: Agg(0, [mkref(p)]))


@m("<std::path::Display<'_> as core::fmt::Display>::fmt", "<std::ffi::os_str::Display<'_> as core::fmt::Display>::fmt")
def _(fn, d, f):
    from mfmt import pad, F_, okf
    pad(F_(f), PB(D(d).f[0]))
    return okf()


@m("<std::path::Path as core::fmt::Debug>::fmt", "<std::path::PathBuf as core::fmt::Debug>::fmt", "<std::ffi::os_str::OsStr as core::fmt::Debug>::fmt", "<std::ffi::os_str::OsString as core::fmt::Debug>::fmt")
def _(fn, d, f):
    from mfmt import F_, okf
    F_(f).sink([34] + list(PB(d)) + [34])
    return okf()
