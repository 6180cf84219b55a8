"""Models of str / String / char."""
from mcore import *
from expr import wrapint

SL = 'core::str::<impl str>::'
AS = 'alloc::str::<impl str>::'


# ---------------------------------------------------------------- char classification
def ci(name, f):
    def g(fn, c, *rest):
        c = D(c) if type(c) is Ref else c
        if type(c) is E and c.op != 'tab':
            c = CUR.P.conc(c)
        return cpred(name, c, f)
    return g


def _alpha(v):
    return chr(v).isalpha() if v < 0x110000 else False


for nm, f in {
    'is_alphabetic': _alpha,
    'is_numeric': lambda v: chr(v).isnumeric(),
    'is_alphanumeric': lambda v: chr(v).isalpha() or chr(v).isnumeric(),
    'is_whitespace': lambda v: v in (9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000) or 0x2000 <= v <= 0x200a,
    'is_lowercase': lambda v: chr(v).islower(),
    'is_uppercase': lambda v: chr(v).isupper(),
    'is_control': lambda v: v < 32 or 0x7f <= v < 0xa0,
    'is_ascii': lambda v: v < 128,
    'is_ascii_digit': lambda v: 48 <= v < 58,
    'is_ascii_hexdigit': lambda v: v < 128 and chr(v) in '0123456789abcdefABCDEF',
    'is_ascii_alphabetic': lambda v: v < 128 and chr(v).isalpha(),
    'is_ascii_alphanumeric': lambda v: v < 128 and chr(v).isalnum(),
    'is_ascii_lowercase': lambda v: 97 <= v <= 122,
    'is_ascii_uppercase': lambda v: 65 <= v <= 90,
    'is_ascii_whitespace': lambda v: v in (9, 10, 12, 13, 32),
    'is_ascii_punctuation': lambda v: 33 <= v < 127 and not chr(v).isalnum(),
    'is_ascii_graphic': lambda v: 33 <= v < 127,
    'is_ascii_control': lambda v: v < 32 or v == 127,
}.items():
    m('core::char::methods::<impl char>::' + nm)(ci(nm, f))
    if 'ascii' in nm:
        m('core::num::<impl u8>::' + nm)(ci(nm + '8', f))


def _map1(name, f, w):
    def g(fn, c):
        c = D(c) if type(c) is Ref else c
        if type(c) is E and c.op != 'tab':
            c = CUR.P.conc(c)
        return cmap(name, c, f, w)
    return g


lowa = lambda v: v + 32 if 65 <= v <= 90 else v
upa = lambda v: v - 32 if 97 <= v <= 122 else v
m('core::char::methods::<impl char>::to_ascii_lowercase')(_map1('lowa', lowa, 32))
m('core::char::methods::<impl char>::to_ascii_uppercase')(_map1('upa', upa, 32))
m('core::num::<impl u8>::to_ascii_lowercase')(_map1('lowa8', lowa, 8))
m('core::num::<impl u8>::to_ascii_uppercase')(_map1('upa8', upa, 8))


@m('core::char::methods::<impl char>::eq_ignore_ascii_case', 'core::num::<impl u8>::eq_ignore_ascii_case')
def _(fn, a, b):
    f = _map1('lowa', lowa, 32)
    return cmp('eq', f(None, D(a)), f(None, D(b)))


def lower_char(c):
    if type(c) is E:
        ascii_only(c)
        return [cmap('lowa', c, lowa, 32)]
    return [ord(x) for x in chr(c).lower()]


def upper_char(c):
    if type(c) is E:
        ascii_only(c)
        return [cmap('upa', c, upa, 32)]
    return [ord(x) for x in chr(c).upper()]


@m('core::char::methods::<impl char>::to_lowercase')
def _(fn, c):
    return PyIter(lower_char(c))


@m('core::char::methods::<impl char>::to_uppercase')
def _(fn, c):
    return PyIter(upper_char(c))


@m('core::char::methods::<impl char>::len_utf8')
def _(fn, c):
    return len(enc(c))


@m('core::char::methods::<impl char>::encode_utf8')
def _(fn, c, buf):
    b = enc(c)
    for i, x in enumerate(b):
        buf.l[buf.o + i] = x
    return SliceRef(buf.l, buf.o, len(b))


@m('core::char::convert::from_u32_unchecked', 'core::char::convert::char_try_from_u32_unchecked')
def _(fn, c):
    return c


@m('core::char::methods::<impl char>::from_u32_unchecked')
def _(fn, c):
    return c


@m('<u32 as core::convert::From<char>>::from')
def _(fn, c):
    return c


# ---------------------------------------------------------------- patterns
def chars_at(l):
    i = 0
    n = len(l)
    while i < n:
        c, k = dec(l, i)
        yield i, c, k
        i += k


def matcher(fn, p, ti=0):
    """returns f(l, i) -> (cond, length) testing the pattern at position i, and a flag 'per char'"""
    t = VM.types[fn['ga'][ti]]
    while t['k'] == 'ref':
        e = VM.types[t['to']]
        if e['k'] in ('str', 'slice'):
            break
        if t['k'] == 'ref' and type(p) is Ref and e['k'] in ('ref', 'array', 'char') or e.get('n') == 'alloc::string::String':
            p = D(p) if type(p) is Ref else p
            t = e
            continue
        break
    k = t['k']
    if k == 'char':
        def f(l, i):
            c, n = dec(l, i)
            return cmp('eq', c, p), n
        return f, True
    if k == 'ref' and VM.types[t['to']]['k'] == 'str' or t.get('n') == 'alloc::string::String':
        b = S(p)

        def f(l, i):
            if i + len(b) > len(l):
                return False, 0
            return eqlist(l[i:i + len(b)], b), len(b)
        return f, False
    if k == 'array' or k == 'ref' and VM.types[t['to']]['k'] == 'slice':
        cs = p.f if type(p) is Agg else p.l[p.o:p.o + p.n]

        def f(l, i):
            c, n = dec(l, i)
            r = False
            for x in cs:
                r = bor(r, cmp('eq', c, x))
            return r, n
        return f, True
    # closure / fn
    cell = Ref([p], 0)

    def f(l, i):
        c, n = dec(l, i)
        return VM.call_value(cell, [c]), n
    return f, True


def positions(l, perchar):
    i = 0
    n = len(l)
    while i < n:
        yield i
        if perchar:
            i += dec(l, i)[1]
        else:
            i += 1
    if not perchar:
        yield n


def matches_fwd(l, f, perchar):
    """yield (start, end) of successive non-overlapping matches"""
    i = 0
    n = len(l)
    while i < n or (not perchar and i <= n):
        if not perchar and i < n and not boundary(l, i):
            i += 1
            continue
        c, k = f(l, i)
        if truth(c):
            yield i, i + k
            i += k if k else 1
        else:
            i += dec(l, i)[1] if perchar else 1


def matches_back(l, f, perchar):
    n = len(l)
    i = n
    if perchar:
        while i > 0:
            c, k = dec_back(l, i)
            i -= k
            x, _ = f(l, i)
            if truth(x):
                yield i, i + k
    else:
        lim = n
        i = n
        while i >= 0:
            x, k = f(l[:lim], i)
            if boundary(l, i) and truth(x):
                yield i, i + k
                lim = i
                if k == 0:
                    i -= 1
            else:
                i -= 1


def sub(s, a, b):
    return SliceRef(s.l, s.o + a, b - a)


@m(SL + 'find', needs=())
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    for a, b in matches_fwd(l, f, pc):
        return some(a)
    return none()


@m(SL + 'rfind')
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    for a, b in matches_back(l, f, pc):
        return some(a)
    return none()


@m(SL + 'contains')
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    if isconc(l):
        for a, b in matches_fwd(l, f, pc):
            return True
        return False
    r = False
    for i in positions(l, pc):
        r = bor(r, f(l, i)[0])
        if r is True:
            return True
    return r


@m(SL + 'starts_with')
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    if pc and not l:
        return False
    return f(l, 0)[0]


def suffix(l, f, pc, p):
    if pc:
        if not l:
            return False, 0
        c, k = dec_back(l, len(l))
        return f(l, len(l) - k)[0], k
    k = len(S(p))
    if k > len(l):
        return False, 0
    return f(l, len(l) - k)[0], k


@m(SL + 'ends_with')
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    return suffix(l, f, pc, p)[0]


@m(SL + 'strip_prefix')
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    if pc and not l:
        return none()
    c, k = f(l, 0)
    return some(sub(s, k, s.n)) if truth(c) else none()


@m(SL + 'strip_suffix')
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    c, k = suffix(l, f, pc, p)
    return some(sub(s, 0, s.n - k)) if truth(c) else none()


@m(SL + 'split_once')
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    for a, b in matches_fwd(l, f, pc):
        return some(tup(sub(s, 0, a), sub(s, b, s.n)))
    return none()


@m(SL + 'rsplit_once')
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    for a, b in matches_back(l, f, pc):
        return some(tup(sub(s, 0, a), sub(s, b, s.n)))
    return none()


def g_split(s, f, pc, limit=None, incl=False, term=False):
    l = S(s)
    st = 0
    n = 0
    if limit != 0:
        for a, b in matches_fwd(l, f, pc):
            if limit is not None and n >= limit - 1:
                break
            yield sub(s, st, b if incl else a)
            st = b
            n += 1
        if not ((incl or term) and st == s.n):
            yield sub(s, st, s.n)


def g_rsplit(s, f, pc, limit=None):
    l = S(s)
    e = s.n
    n = 0
    if limit != 0:
        for a, b in matches_back(l, f, pc):
            if limit is not None and n >= limit - 1:
                break
            yield sub(s, b, e)
            e = a
            n += 1
        yield sub(s, 0, e)


@m(SL + 'split')
def _(fn, s, p):
    f, pc = matcher(fn, p)
    return PyIter(g_split(s, f, pc))


@m(SL + 'split_inclusive')
def _(fn, s, p):
    f, pc = matcher(fn, p)
    return PyIter(g_split(s, f, pc, incl=True))


@m(SL + 'split_terminator')
def _(fn, s, p):
    f, pc = matcher(fn, p)
    return PyIter(g_split(s, f, pc, term=True))


@m(SL + 'splitn')
def _(fn, s, n, p):
    f, pc = matcher(fn, p)
    return PyIter(g_split(s, f, pc, limit=CUR.P.conc(n)))


@m(SL + 'rsplit')
def _(fn, s, p):
    f, pc = matcher(fn, p)
    return PyIter(g_rsplit(s, f, pc))


@m(SL + 'rsplitn')
def _(fn, s, n, p):
    f, pc = matcher(fn, p)
    return PyIter(g_rsplit(s, f, pc, limit=CUR.P.conc(n)))


@m(SL + 'matches')
def _(fn, s, p):
    f, pc = matcher(fn, p)
    return PyIter(sub(s, a, b) for a, b in matches_fwd(S(s), f, pc))


@m(SL + 'match_indices')
def _(fn, s, p):
    f, pc = matcher(fn, p)
    return PyIter(tup(a, sub(s, a, b)) for a, b in matches_fwd(S(s), f, pc))


@m(SL + 'trim_start_matches')
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    i = 0
    while i < len(l):
        c, k = f(l, i)
        if not k or not truth(c):
            break
        i += k
    return sub(s, i, s.n)


@m(SL + 'trim_end_matches')
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    n = len(l)
    while n > 0:
        c, k = suffix(l[:n], f, pc, p)
        if not k or not truth(c):
            break
        n -= k
    return sub(s, 0, n)


@m(SL + 'trim_matches')
def _(fn, s, p):
    l = S(s)
    f, pc = matcher(fn, p)
    i = 0
    while i < len(l):
        c, k = f(l, i)
        if not truth(c):
            break
        i += k
    n = len(l)
    while n > i:
        c, k = suffix(l[:n], f, pc, p)
        if not truth(c):
            break
        n -= k
    return sub(s, i, n)


WS = ci('is_whitespace', lambda v: v in (9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680, 0x2028, 0x2029, 0x202f, 0x205f, 0x3000) or 0x2000 <= v <= 0x200a)


def _trim(s, st, en):
    l = S(s)
    i, n = 0, len(l)
    if st:
        while i < n:
            c, k = dec(l, i)
            if not truth(WS(None, c)):
                break
            i += k
    if en:
        while n > i:
            c, k = dec_back(l, n)
            if not truth(WS(None, c)):
                break
            n -= k
    return sub(s, i, n)


@m(SL + 'trim')
def _(fn, s):
    return _trim(s, True, True)


@m(SL + 'trim_start', SL + 'trim_left')
def _(fn, s):
    return _trim(s, True, False)


@m(SL + 'trim_end', SL + 'trim_right')
def _(fn, s):
    return _trim(s, False, True)


@m(SL + 'split_whitespace', SL + 'split_ascii_whitespace')
def _(fn, s):
    l = S(s)

    def gen():
        st = None
        for i, c, k in chars_at(l):
            if truth(WS(None, c)):
                if st is not None:
                    yield sub(s, st, i)
                st = None
            elif st is None:
                st = i
        if st is not None:
            yield sub(s, st, len(l))
    return PyIter(gen())


@m(SL + 'lines')
def _(fn, s):
    l = S(s)

    def gen():
        st = 0
        for i in range(len(l)):
            if truth(cmp('eq', l[i], 10)):
                e = i
                if e > st and truth(cmp('eq', l[e - 1], 13)):
                    e -= 1
                yield sub(s, st, e)
                st = i + 1
        if st < len(l):
            # a trailing "\r" without "\n" is kept
            yield sub(s, st, len(l))
    return PyIter(gen())


@m(SL + 'chars')
def _(fn, s):
    return charsiter(s)


def charsiter(s):
    l = S(s)
    it = PyIter(c for i, c, k in chars_at(l))
    it.x = ('chars', s)
    return it


@m('core::str::iter::Chars::<\'a>::as_str')
def _(fn, r):
    it = D(r)
    s = it.x[1]
    l = S(s)
    # byte offset of the i-th char
    off = 0
    for _ in range(it.i):
        off += dec(l, off)[1]
    end = s.n
    if it.j is not None:
        end = 0
        for _ in range(it.j):
            end += dec(l, end)[1]
    return sub(s, off, end)


@m('core::str::iter::CharIndices::<\'a>::as_str')
def _(fn, r):
    it = D(r)
    s = it.x[1]
    l = S(s)
    off = 0
    for _ in range(it.i):
        off += dec(l, off)[1]
    return sub(s, off, s.n)


@m(SL + 'char_indices')
def _(fn, s):
    l = S(s)
    it = PyIter(tup(i, c) for i, c, k in chars_at(l))
    it.x = ('char_indices', s)
    return it


@m("core::str::iter::CharIndices::<'a>::offset")
def _(fn, r):
    it = D(r)
    l = S(it.x[1])
    off = 0
    for _ in range(it.i):
        off += dec(l, off)[1]
    return off


@m(SL + 'bytes')
def _(fn, s):
    return PyIter(list(S(s)))


@m(SL + 'as_bytes', SL + 'as_bytes_mut', SL + 'as_ptr', 'core::str::converts::from_utf8_unchecked', 'core::str::<impl str>::from_utf8_unchecked',
   'core::str::converts::from_utf8_unchecked_mut', 'core::str::converts::from_raw_parts',
   '<str as core::convert::AsRef<[u8]>>::as_ref', '<str as core::convert::AsRef<str>>::as_ref', '<str as core::borrow::Borrow<str>>::borrow')
def _(fn, s):
    return s


@m(SL + 'len')
def _(fn, s):
    return s.n


@m(SL + 'is_empty')
def _(fn, s):
    return s.n == 0


@m(SL + 'is_char_boundary')
def _(fn, s, i):
    return boundary(S(s), CUR.P.conc(i))


@m(SL + 'is_ascii')
def _(fn, s):
    return conj(cmp('lt', b, 128) for b in S(s))


@m(SL + 'split_at')
def _(fn, s, i):
    i = CUR.P.conc(i)
    l = S(s)
    if i > len(l) or not boundary(l, i):
        panic('failed to slice string')
    return tup(sub(s, 0, i), sub(s, i, s.n))


@m(SL + 'eq_ignore_ascii_case')
def _(fn, a, b):
    x, y = S(a), S(b)
    if len(x) != len(y):
        return False
    return conj(cmp('eq', cmap('lowa8', p, lowa, 8), cmap('lowa8', q, lowa, 8)) for p, q in zip(x, y))


def range_of(fn, r, ti, n):
    """(start, end) for a Range* value whose type is generic arg ti; n = container length"""
    t = VM.types[fn['ga'][ti]] if type(ti) is int and ti >= 0 else ti
    return range_bounds(t, r, n)


def range_bounds(t, r, n):
    nm = t.get('n', '')
    P = CUR.P
    if nm.endswith('RangeFull'):
        return 0, n
    f = r.f
    if nm.endswith('RangeFrom'):
        return P.conc(f[0]), n
    if nm.endswith('RangeTo'):
        return 0, P.conc(f[0])
    if nm.endswith('RangeToInclusive'):
        return 0, P.conc(f[0]) + 1
    if nm.endswith('RangeInclusive'):
        e = P.conc(f[1]) + 1
        return (e if (len(f) > 2 and truth(f[2])) else P.conc(f[0])), e
    if nm.endswith('::Range'):
        return P.conc(f[0]), P.conc(f[1])
    raise Unmodelled('range type ' + nm)


def str_slice(s, a, b, checked):
    l = S(s)
    if a > b or b > len(l) or not boundary(l, a) or not boundary(l, b):
        if checked:
            return None
        panic('str slice index out of range or not on a char boundary')
    return sub(s, a, b)


@m('core::str::traits::<impl core::ops::index::Index<I> for str>::index', 'core::str::traits::<impl core::ops::index::IndexMut<I> for str>::index_mut')
def _(fn, s, r):
    a, b = range_of(fn, r, 0, s.n)
    return str_slice(s, a, b, False)


@m(SL + 'get')
def _(fn, s, r):
    a, b = range_of(fn, r, 0, s.n)
    x = str_slice(s, a, b, True)
    return none() if x is None else some(x)


@m(SL + 'get_unchecked')
def _(fn, s, r):
    a, b = range_of(fn, r, 0, s.n)
    return sub(s, a, b)


for rt in ('Range<usize>', 'RangeFrom<usize>', 'RangeTo<usize>'):
    for md in ('index', 'get', 'get_unchecked'):
        def mk_(rt=rt, md=md):
            @m('core::str::traits::<impl core::slice::index::SliceIndex<str> for core::ops::range::%s>::%s' % (rt, md))
            def _(fn, r, s):
                a, b = range_bounds({'n': '::' + rt.split('<')[0]}, r, s.n)
                x = str_slice(s, a, b, md != 'index')
                if md == 'get':
                    return none() if x is None else some(x)
                return x
        mk_()


@m('alloc::string::String::get_unchecked')
def _(fn, s, r):
    raise Unmodelled('x')


@m('<alloc::string::String as core::ops::index::Index<I>>::index')
def _(fn, s, r):
    v = D(s)
    ss = SliceRef(v.l, 0, len(v.l))
    a, b = range_of(fn, r, 0, ss.n)
    return str_slice(ss, a, b, False)


# ---------------------------------------------------------------- equality / ordering
def cmp_lists(a, b):
    """lexicographic compare -> -1/0/1 (forks)"""
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x != y:
                return -1 if x < y else 1
            continue
        if truth(cmp('eq', x, y)):
            continue
        return -1 if truth(cmp('lt', x, y)) else 1
    return (len(a) > len(b)) - (len(a) < len(b))


def ordering(c):
    return Agg(c + 1, [])


_ST = ['str', '&str', "&'a str", "&'b str", 'alloc::string::String', "alloc::borrow::Cow<'a, str>", "alloc::borrow::Cow<'_, str>"]
_SPAIRS = [(x, y) for x in _ST for y in _ST]


def _streq(fn, a, b):
    return eqlist(S(a), S(b))


m('core::str::traits::<impl core::cmp::PartialEq for str>::eq', '<alloc::string::String as core::cmp::PartialEq>::eq',
  '<alloc::string::String as core::cmp::PartialEq<str>>::eq', '<alloc::string::String as core::cmp::PartialEq<&str>>::eq',
  "<alloc::string::String as core::cmp::PartialEq<&'a str>>::eq",
  '<str as core::cmp::PartialEq<alloc::string::String>>::eq', '<&str as core::cmp::PartialEq<alloc::string::String>>::eq',
  "<&'a str as core::cmp::PartialEq<alloc::string::String>>::eq",
  "<alloc::borrow::Cow<'a, str> as core::cmp::PartialEq<str>>::eq", "<alloc::borrow::Cow<'a, str> as core::cmp::PartialEq<&'b str>>::eq",
  "<alloc::borrow::Cow<'a, str> as core::cmp::PartialEq<alloc::string::String>>::eq",
  *['alloc::string::<impl core::cmp::PartialEq<%s> for %s>::eq' % t for t in _SPAIRS])(_streq)
m('core::str::traits::<impl core::cmp::PartialEq for str>::ne', '<alloc::string::String as core::cmp::PartialEq>::ne',
  '<alloc::string::String as core::cmp::PartialEq<str>>::ne', "<alloc::string::String as core::cmp::PartialEq<&'a str>>::ne",
  '<alloc::string::String as core::cmp::PartialEq<&str>>::ne', '<str as core::cmp::PartialEq<alloc::string::String>>::ne',
  '<&str as core::cmp::PartialEq<alloc::string::String>>::ne', "<alloc::borrow::Cow<'a, str> as core::cmp::PartialEq<str>>::ne",
  "<alloc::borrow::Cow<'a, str> as core::cmp::PartialEq<&'b str>>::ne", "<alloc::borrow::Cow<'a, str> as core::cmp::PartialEq<alloc::string::String>>::ne",
  "<&'a str as core::cmp::PartialEq<alloc::string::String>>::ne",
  *['alloc::string::<impl core::cmp::PartialEq<%s> for %s>::ne' % t for t in _SPAIRS])(lambda fn, a, b: bnot(_streq(fn, a, b)))


@m('core::str::traits::<impl core::cmp::Ord for str>::cmp', '<alloc::string::String as core::cmp::Ord>::cmp')
def _(fn, a, b):
    return ordering(cmp_lists(S(a), S(b)))


@m('core::str::traits::<impl core::cmp::PartialOrd for str>::partial_cmp', '<alloc::string::String as core::cmp::PartialOrd>::partial_cmp')
def _(fn, a, b):
    return some(ordering(cmp_lists(S(a), S(b))))


@m('core::str::traits::<impl core::cmp::PartialEq for str>::eq::x')
def _(fn, a, b):
    return None


# ---------------------------------------------------------------- String
ST_ = 'alloc::string::String::'


@m(ST_ + 'new', '<alloc::string::String as core::default::Default>::default')
def _(fn):
    return VecV([])


@m(ST_ + 'with_capacity')
def _(fn, n):
    return VecV([])


@m('<&str as core::default::Default>::default')
def _(fn):
    return SliceRef((), 0, 0)


@m(ST_ + 'push_str')
def _(fn, s, t):
    D(s).l.extend(S(t))
    return unit()


@m(ST_ + 'push')
def _(fn, s, c):
    D(s).l.extend(enc(c))
    return unit()


@m(ST_ + 'pop')
def _(fn, s):
    v = D(s)
    if not v.l:
        return none()
    c, k = dec_back(v.l, len(v.l))
    del v.l[len(v.l) - k:]
    return some(c)


@m(ST_ + 'insert_str')
def _(fn, s, i, t):
    i = CUR.P.conc(i)
    v = D(s)
    if not boundary(v.l, i):
        panic('insert_str boundary')
    v.l[i:i] = list(S(t))
    return unit()


@m(ST_ + 'insert')
def _(fn, s, i, c):
    i = CUR.P.conc(i)
    v = D(s)
    if not boundary(v.l, i):
        panic('insert boundary')
    v.l[i:i] = enc(c)
    return unit()


@m(ST_ + 'remove')
def _(fn, s, i):
    i = CUR.P.conc(i)
    v = D(s)
    if i >= len(v.l) or not boundary(v.l, i):
        panic('String::remove')
    c, k = dec(v.l, i)
    del v.l[i:i + k]
    return c


@m(ST_ + 'truncate')
def _(fn, s, n):
    n = CUR.P.conc(n)
    v = D(s)
    if n <= len(v.l):
        if not boundary(v.l, n):
            panic('truncate boundary')
        del v.l[n:]
    return unit()


@m(ST_ + 'clear')
def _(fn, s):
    D(s).l.clear()
    return unit()


@m(ST_ + 'retain')
def _(fn, s, f):
    v = D(s)
    out = []
    cell = Ref([f], 0)
    for i, c, k in list(chars_at(v.l)):
        if truth(VM.call_value(cell, [c])):
            out += v.l[i:i + k]
    v.l[:] = out
    return unit()


@m(ST_ + 'drain')
def _(fn, s, r):
    v = D(s)
    a, b = range_of(fn, r, 0, len(v.l))
    if a > b or b > len(v.l) or not boundary(v.l, a) or not boundary(v.l, b):
        panic('drain range')
    x = v.l[a:b]
    del v.l[a:b]
    return PyIter([c for i, c, k in chars_at(x)])


@m(ST_ + 'replace_range')
def _(fn, s, r, t):
    v = D(s)
    a, b = range_of(fn, r, 0, len(v.l))
    if a > b or b > len(v.l) or not boundary(v.l, a) or not boundary(v.l, b):
        panic('replace_range')
    v.l[a:b] = list(S(t))
    return unit()


@m(ST_ + 'split_off')
def _(fn, s, n):
    v = D(s)
    n = CUR.P.conc(n)
    if n > len(v.l) or not boundary(v.l, n):
        panic('split_off')
    x = v.l[n:]
    del v.l[n:]
    return VecV(x)


def _asref(fn, s):
    if type(s) is SliceRef:
        return s
    v = D(s)
    if type(v) is SliceRef:
        return v
    return SliceRef(v.l, 0, len(v.l))


m(ST_ + 'as_str', ST_ + 'as_mut_str', ST_ + 'as_bytes', '<alloc::string::String as core::ops::deref::Deref>::deref',
  '<alloc::string::String as core::ops::deref::DerefMut>::deref_mut',
  '<alloc::string::String as core::convert::AsRef<str>>::as_ref', '<alloc::string::String as core::convert::AsRef<[u8]>>::as_ref',
  '<alloc::string::String as core::borrow::Borrow<str>>::borrow', ST_ + 'as_mut_vec_slice')(_asref)


@m(ST_ + 'as_mut_vec')
def _(fn, s):
    return s


@m(ST_ + 'len')
def _(fn, s):
    return len(D(s).l)


@m(ST_ + 'is_empty')
def _(fn, s):
    return len(D(s).l) == 0


@m(ST_ + 'capacity')
def _(fn, s):
    return len(D(s).l)


@m(ST_ + 'reserve', ST_ + 'shrink_to_fit', ST_ + 'reserve_exact')
def _(fn, *a):
    return unit()


@m(ST_ + 'into_bytes', ST_ + 'from_utf8_unchecked', ST_ + 'into_boxed_str', ST_ + 'leak', 'alloc::str::<impl str>::into_string',
   '<alloc::string::String as core::convert::From<alloc::boxed::Box<str>>>::from',
   '<alloc::boxed::Box<str> as core::convert::From<alloc::string::String>>::from',
   'alloc::str::<impl str>::into_boxed_bytes',
   '<alloc::vec::Vec<u8> as core::convert::From<alloc::string::String>>::from')
def _(fn, s):
    n = fn['n']
    if n.endswith('into_boxed_str') or n.startswith('<alloc::boxed') or n.endswith('leak'):
        return SliceRef(s.l, 0, len(s.l))
    if type(s) is SliceRef:
        return VecV(list(S(s)))
    return s


@m(ST_ + 'from_utf8')
def _(fn, v):
    if utf8_ok(v.l):
        return ok(v)
    return err(Agg(0, [v, Agg(0, [0, none()])]))


@m(ST_ + 'from_utf8_lossy')
def _(fn, s):
    b = S(s)
    if utf8_ok(b):
        return Agg(0, [s])   # Cow::Borrowed
    b = bytes(CUR.P.conc(x) for x in b)
    return Agg(1, [VecV(list(b.decode('utf8', 'replace').encode()))])


@m('alloc::string::String::from_utf8_lossy_owned')
def _(fn, s):
    raise Unmodelled('lossy_owned')


def utf8_ok(b):
    i = 0
    if type(b) is bytes and b.isascii():
        return True
    while i < len(b):
        x = b[i]
        if type(x) is E:
            if truth(cmp('lt', x, 128)):
                i += 1
                continue
            x = b[i] = CUR.P.conc(x)
        if x < 128:
            i += 1
            continue
        n = 2 if 0xc2 <= x < 0xe0 else 3 if 0xe0 <= x < 0xf0 else 4 if 0xf0 <= x < 0xf5 else 0
        try:
            bytes(b[i:i + n]).decode('utf8')
        except Exception:
            return False
        if n == 0:
            return False
        i += n
    return True


@m('core::str::converts::from_utf8', 'core::str::<impl str>::from_utf8')
def _(fn, s):
    v = s
    while type(v) in (Ref, DynRef):
        v = D(v)
    if type(v) is SliceRef:
        b = v.items()
        r = utf8_ok(b)
        if type(v.l) is list:
            v.l[v.o:v.o + v.n] = b
    else:
        r = utf8_ok(S(v))
    if r:
        return ok(s)
    return err(Agg(0, [0, none()]))


def _mkown(fn, s):
    return VecV(list(S(s)))


m('<alloc::string::String as core::convert::From<&str>>::from', '<alloc::string::String as core::convert::From<&mut str>>::from',
  '<alloc::string::String as core::convert::From<&alloc::string::String>>::from',
  '<alloc::string::String as core::clone::Clone>::clone', '<str as alloc::string::SpecToString>::spec_to_string',
  '<alloc::string::String as alloc::string::SpecToString>::spec_to_string',
  '<alloc::string::String as alloc::string::ToString>::to_string', '<str as alloc::string::ToString>::to_string',
  'alloc::str::<impl alloc::borrow::ToOwned for str>::to_owned', '<str as alloc::borrow::ToOwned>::to_owned',
  '<alloc::string::String as core::str::traits::FromStr>::from_str::x', AS + 'into_string_x',
  '<alloc::vec::Vec<u8> as core::convert::From<&str>>::from')(_mkown)


@m('<alloc::string::String as core::str::traits::FromStr>::from_str')
def _(fn, s):
    return ok(_mkown(fn, s))


@m('<alloc::boxed::Box<str> as core::convert::From<&str>>::from', '<alloc::boxed::Box<str> as core::clone::Clone>::clone',
   '<alloc::sync::Arc<str> as core::convert::From<&str>>::from', '<alloc::rc::Rc<str> as core::convert::From<&str>>::from')
def _(fn, s):
    return mkstr(list(S(s)))


@m('<alloc::string::String as core::convert::From<char>>::from')
def _(fn, c):
    return VecV(enc(c))


@m("<alloc::string::String as core::convert::From<alloc::borrow::Cow<'_, str>>>::from", "<alloc::string::String as core::convert::From<alloc::borrow::Cow<'a, str>>>::from")
def _(fn, c):
    return c.f[0] if c.v == 1 else VecV(list(S(c.f[0])))


@m('<alloc::string::String as core::clone::Clone>::clone_from', 'alloc::str::<impl alloc::borrow::ToOwned for str>::clone_into')
def _(fn, a, b):
    if type(a) is SliceRef:
        a, b = b, a
    D(a).l[:] = list(S(b))
    return unit()


@m('<alloc::string::String as core::ops::arith::Add<&str>>::add')
def _(fn, s, t):
    s.l.extend(S(t))
    return s


@m('<alloc::string::String as core::ops::arith::AddAssign<&str>>::add_assign')
def _(fn, s, t):
    D(s).l.extend(S(t))
    return unit()


@m(AS + 'to_lowercase')
def _(fn, s):
    out = []
    for i, c, k in chars_at(S(s)):
        for x in lower_char(c):
            out += enc(x)
    return VecV(out)


@m(AS + 'to_uppercase')
def _(fn, s):
    out = []
    for i, c, k in chars_at(S(s)):
        for x in upper_char(c):
            out += enc(x)
    return VecV(out)


@m(AS + 'to_ascii_lowercase')
def _(fn, s):
    return VecV([cmap('lowa8', x, lowa, 8) for x in S(s)])


@m(AS + 'to_ascii_uppercase')
def _(fn, s):
    return VecV([cmap('upa8', x, upa, 8) for x in S(s)])


@m(SL + 'make_ascii_lowercase')
def _(fn, s):
    for i in range(s.o, s.o + s.n):
        s.l[i] = cmap('lowa8', s.l[i], lowa, 8)
    return unit()


@m(AS + 'repeat')
def _(fn, s, n):
    return VecV(list(S(s)) * CUR.P.conc(n))


@m(AS + 'replace')
def _(fn, s, p, t):
    l = S(s)
    f, pc = matcher(fn, p)
    to = list(S(t))
    out = []
    st = 0
    for a, b in matches_fwd(l, f, pc):
        out += l[st:a]
        out += to
        st = b
    out += l[st:]
    return VecV(out)


@m(AS + 'replacen')
def _(fn, s, p, t, n):
    l = S(s)
    f, pc = matcher(fn, p)
    to = list(S(t))
    out = []
    st = 0
    k = CUR.P.conc(n)
    if k:
        for a, b in matches_fwd(l, f, pc):
            out += l[st:a]
            out += to
            st = b
            k -= 1
            if not k:
                break
    out += l[st:]
    return VecV(out)


def extend_string(v, fn, argi, it):
    for x in iterate(fn, argi, it):
        string_push_any(v, x)


def string_push_any(v, x):
    if type(x) in (int, E):
        v.l.extend(enc(x))
    elif type(x) is Ref and type(D(x)) in (int, E):
        v.l.extend(enc(D(x)))
    else:
        if type(x) is Agg:       # Cow
            x = x.f[0]
        v.l.extend(S(x))


for t in ('char', "&'a char", "&'a str", 'alloc::string::String', 'alloc::boxed::Box<str>', "alloc::borrow::Cow<'a, str>"):
    def mk2(t=t):
        @m('<alloc::string::String as core::iter::traits::collect::FromIterator<%s>>::from_iter' % t, needs=[('iter', 0)])
        def _(fn, it):
            v = VecV([])
            extend_string(v, fn, 0, it)
            return v

        @m('<alloc::string::String as core::iter::traits::collect::Extend<%s>>::extend' % t, needs=[('iter', 0)])
        def _(fn, s, it):
            extend_string(D(s), fn, 0, it)
            return unit()
    mk2()


def join_lists(parts, sep):
    out = []
    for i, p in enumerate(parts):
        if i:
            out += sep
        out += p
    return out


@m('alloc::str::<impl alloc::slice::Join<&str> for [S]>::join')
def _(fn, s, sep):
    return VecV(join_lists([list(S(x)) for x in s.l[s.o:s.o + s.n]], list(S(sep))))


@m('alloc::slice::<impl [T]>::join')
def _(fn, s, sep):
    t = VM.types[fn['ga'][0]]
    if type(sep) is SliceRef or type(sep) is Ref:
        sp = list(S(sep))
    else:
        sp = [sep]
    return VecV(join_lists([list(S(x)) for x in s.l[s.o:s.o + s.n]], sp))


@m('alloc::str::<impl alloc::slice::Concat<str> for [S]>::concat', 'alloc::slice::<impl [T]>::concat')
def _(fn, s):
    return VecV(join_lists([list(S(x)) for x in s.l[s.o:s.o + s.n]], []))


# ---------------------------------------------------------------- numbers
def parse_int(fn, s, w, sg):
    b = S(s)
    neg = False

    def e(kind):
        return err(Agg(0, [Agg(kind, [])]))
    if not b:
        return e(0)
    i = 0
    if sg and truth(cmp('eq', b[0], 45)):
        if len(b) == 1:
            return e(1)
        neg = True
        i = 1
    elif truth(cmp('eq', b[0], 43)):
        if len(b) == 1:
            return e(1)
        i = 1
    v = 0
    hi = (1 << (w - 1)) - 1 if sg else (1 << w) - 1
    if neg:
        hi += 1
    dig = b[i:]
    for c in dig:
        if not truth(cpred('dig', c, lambda x: 48 <= x < 58)):
            return e(1)
        if type(c) is E:
            if len(dig) * 4 < w - 4:
                from expr import arith
                v = arith('add', arith('mul', v, 10, w, sg), arith('sub', cast(c, 8, False, w, sg), 48, w, sg), w, sg)
                continue
            c = CUR.P.conc(c)
        if type(v) is E:
            v = CUR.P.conc(v)
        v = v * 10 + (c - 48)
        if v > hi:
            return e(3 if neg else 2)
    if neg:
        from expr import arith
        v = arith('sub', 0, v, w, sg)
    return ok(v)


for ty, w, sg in (('u8', 8, 0), ('u16', 16, 0), ('u32', 32, 0), ('u64', 64, 0), ('usize', 64, 0), ('i8', 8, 1), ('i16', 16, 1), ('i32', 32, 1), ('i64', 64, 1), ('isize', 64, 1)):
    def mk3(ty=ty, w=w, sg=sg):
        @m('core::num::<impl core::str::traits::FromStr for %s>::from_str' % ty)
        def _(fn, s):
            return parse_int(fn, s, w, bool(sg))

        @m('core::num::<impl %s>::from_str_radix' % ty)
        def _(fn, s, radix):
            b = conc_bytes(S(s))
            t = b.decode('latin1')
            try:
                if '_' in t or t.strip() != t:
                    raise ValueError
                v = int(t, CUR.P.conc(radix))
            except ValueError:
                return err(Agg(0, [Agg(0 if not t else 1, [])]))
            if v != wrapint(v, w, bool(sg)):
                return err(Agg(0, [Agg(2, [])]))
            return ok(v)
    mk3()


@m('core::str::traits::<impl core::str::traits::FromStr for bool>::from_str', '<bool as core::str::traits::FromStr>::from_str')
def _(fn, s):
    b = S(s)
    if truth(eqlist(b, b'true')):
        return ok(True)
    if truth(eqlist(b, b'false')):
        return ok(False)
    return err(Agg(0, []))


@m('bytecount::count')
def _(fn, hay, needle):
    n = 0
    for b in S(hay):
        if truth(cmp('eq', b, needle)):
            n += 1
    return n


@m('<I as unicode_normalization::UnicodeNormalization<I>>::nfc', '<I as unicode_normalization::UnicodeNormalization<I>>::nfd', needs=[('iter', 0)])
def _(fn, it):
    l = list(iterate(fn, 0, it))
    if all(truth(cmp('lt', c, 128)) for c in l):
        return PyIter(l)
    import unicodedata
    s = ''.join(chr(CUR.P.conc(c)) for c in l)
    return PyIter([ord(c) for c in unicodedata.normalize('NFD' if fn['n'].endswith('nfd') else 'NFC', s)])


@m('<unicode_normalization::recompose::Recompositions<I> as core::iter::traits::iterator::Iterator>::next',
   '<unicode_normalization::decompose::Decompositions<I> as core::iter::traits::iterator::Iterator>::next')
def _(fn, r):
    return opt(D(r).next())


@m('unicode_normalization::lookups::is_combining_mark')
def _(fn, c):
    if not truth(cmp('lt', c, 128)):
        import unicodedata
        return unicodedata.category(chr(CUR.P.conc(c)))[0] == 'M'
    return False


@m('alloc::str::<impl core::borrow::Borrow<str> for alloc::string::String>::borrow')
def _(fn, r):
    v = D(r)
    return SliceRef(v.l, 0, len(v.l))


_BIDI = 'AL AN B BN CS EN ES ET FSI L LRE LRI LRO NSM ON PDF PDI R RLE RLI RLO S WS'.split()


@m('unicode_bidi::char_data::bidi_class')
def _(fn, c):
    import unicodedata
    return Agg(_BIDI.index(unicodedata.bidirectional(chr(CUR.P.conc(c))) or 'L'), [])
