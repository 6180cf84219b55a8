"""File system, tar/gzip streams, digests and the content cache: an in-memory tree per path.

Nodes: Dir (entries), File (bytes, mode), Link (target).  Hard links share a File node.  Every call has
the POSIX result for the owner of everything (only a directory's write bit is ever missing); names may be symbolic."""
import hashlib
from mcore import *
from mio import ioerr, EV
from mpath import mkpath
from mpath import PB, comps, mkref, joinb, patheq, NORMAL, ROOT, PARENT, CUR_, is_
from masync import fut, ready, pin, unpin, pollany
import masync
import mvec
import mfmt


class Dir:
    __slots__ = ('e', 'mode', 'gone')

    def __init__(self):
        self.e = []
        self.mode = 0o40755
        self.gone = False


class File:
    __slots__ = ('data', 'mode')

    def __init__(self, data=(), mode=0o644):
        self.data = list(data)
        self.mode = 0o100000 | mode


class Link:
    __slots__ = ('to',)

    def __init__(self, to):
        self.to = list(to)


import os
FSDBG = os.environ.get('FSDBG')


class FsErr(Exception):
    def __init__(self, kind):
        self.kind = kind
        if FSDBG:
            import traceback
            print('FsErr', kind, [f[0]['n'][-80:] if type(f) is tuple else f for f in ()], traceback.format_stack()[-5:-1])


class FS:
    def __init__(self):
        self.root = Dir()
        self.ntmp = 0
        self.index = []      # cacache index: [cache path, key, metadata]
        self.log = []


def fs():
    f = CUR.P.env.get('fs')
    if f is None:
        f = CUR.P.env['fs'] = FS()
        d = f.root
        for n in SCRATCH[1:].split('/'):
            c = Dir()
            d.e.append([list(n.encode()), c])
            d = c
    return f


SCRATCH = '/S/a/b/c/d'


def ent(d, name):
    for x in d.e:
        if truth(eqlist(x[0], name)):
            return x
    return None


def parts(path):
    """[(kind, bytes)] and whether the path must name a directory"""
    if any(truth(cmp('eq', b, 0)) for b in path if type(b) is not int or b == 0):
        raise FsErr('InvalidInput')
    cs = comps(path)
    trail = False
    if cs and cs[-1][2] < len(path):
        trail = True
    return [(c[0], path[c[1]:c[2]]) for c in cs], trail


def walk(path, follow=True):
    """-> (stack of dirs ending in the parent, name or None, node or None, trailing slash)"""
    path = list(path)
    if not path:
        raise FsErr('NotFound')
    cs, trail = parts(path)
    st = [fs().root]
    if not cs or cs[0][0] != ROOT:
        base, _ = parts(list(CUR.P.env.get('cwd', SCRATCH).encode()))
        cs = base + cs
    todo = cs[::-1]
    hops = 0
    while todo:
        k, n = todo.pop()
        if k == ROOT:
            st = [fs().root]
            continue
        if k == CUR_:
            continue
        if k == PARENT:
            if len(st) > 1:
                st.pop()
            continue
        x = ent(st[-1], n)
        last = not todo
        if x is None:
            if last:
                return st, n, None, trail
            raise FsErr('NotFound')
        node = x[1]
        if type(node) is Link and (not last or follow or trail):
            hops += 1
            if hops > 40:
                raise FsErr('Other')
            t, tr = parts(node.to)
            if last and tr:
                trail = True
            todo += t[::-1]
            if not t:
                raise FsErr('NotFound')
            continue
        if last:
            if trail and type(node) is not Dir:
                raise FsErr('NotADirectory')
            return st, n, node, trail
        if type(node) is not Dir:
            raise FsErr('NotADirectory')
        st.append(node)
    return st[:-1], None, st[-1], trail


def getnode(path, follow=True):
    node = walk(path, follow)[2]
    if node is None:
        raise FsErr('NotFound')
    return node


def mkdir(path):
    st, n, node, tr = walk(path, False)
    if node is not None:
        raise FsErr('AlreadyExists')
    add(st[-1], n, Dir())


def mkdirs(path):
    """std::fs::create_dir_all"""
    if not path:
        return
    try:
        mkdir(path)
        return
    except FsErr as e:
        if e.kind == 'NotFound':
            pass
        elif isdir(path):
            return
        else:
            raise
    from mpath import parent_end
    e = parent_end(path)
    if e is None:
        raise FsErr('Other')
    mkdirs(path[:e])
    try:
        mkdir(path)
    except FsErr:
        if isdir(path):
            return
        raise


def isdir(path):
    try:
        return type(getnode(path)) is Dir
    except FsErr:
        return False


def writefile(path, data, mode=0o666, create_new=False, create=True, trunc=True, append=False):
    st, n, node, tr = walk(path, not create_new)
    if node is not None:
        if create_new:
            raise FsErr('AlreadyExists')
        if type(node) is Dir:
            raise FsErr('IsADirectory')
        if data is not None:
            if append:
                node.data += list(data)
            else:
                node.data = list(data)
        elif trunc:
            node.data = []
        return node
    if not create:
        raise FsErr('NotFound')
    if tr:
        raise FsErr('IsADirectory')
    node = File(data or (), mode & ~0o022)
    add(st[-1], n, node)
    return node


def readfile(path):
    node = getnode(path)
    if type(node) is Dir:
        raise FsErr('IsADirectory')
    return node.data


def drop(d, node):
    d.e[:] = [x for x in d.e if x[1] is not node]


def writable(d):
    if not d.mode & 0o200:
        raise FsErr('PermissionDenied')


def add(d, name, node):
    writable(d)
    d.e.append([name, node])


def dele(d, name):
    writable(d)
    x = ent(d, name)
    d.e[:] = [y for y in d.e if y is not x]
    if type(x[1]) is Dir:
        x[1].gone = True


def rmfile(path):
    st, n, node, tr = walk(path, False)
    if node is None:
        raise FsErr('NotFound')
    if type(node) is Dir or n is None:
        raise FsErr('IsADirectory')
    dele(st[-1], n)


def clear(d):
    for x in list(d.e):
        if type(x[1]) is Dir:
            clear(x[1])
        writable(d)
        d.e.remove(x)
    d.gone = True


def rmtree(path):
    st, n, node, tr = walk(path, False)
    if node is None:
        raise FsErr('NotFound')
    if type(node) is not Dir:
        if type(node) is Link:
            dele(st[-1], n)
            return
        raise FsErr('NotADirectory')
    if n is None:
        raise FsErr('InvalidInput')
    clear(node)
    dele(st[-1], n)


def rmdir(path):
    st, n, node, tr = walk(path, False)
    if node is None:
        raise FsErr('NotFound')
    if type(node) is not Dir:
        raise FsErr('NotADirectory')
    if node.e:
        raise FsErr('DirectoryNotEmpty')
    dele(st[-1], n)


def mklink(to, path):
    st, n, node, tr = walk(path, False)
    if node is not None:
        raise FsErr('AlreadyExists')
    add(st[-1], n, Link(to))


def hard(src, path):
    node = getnode(src, False)
    if type(node) is Dir:
        raise FsErr('PermissionDenied')
    st, n, old, tr = walk(path, False)
    if old is not None:
        raise FsErr('AlreadyExists')
    add(st[-1], n, node)


def copyfile(a, b):
    node = getnode(a)
    if type(node) is not File:
        raise FsErr('InvalidInput')
    data = list(node.data)
    t = writefile(b, data, node.mode & 0o777 | 0)
    t.mode = node.mode
    return len(data)


def rename(a, b):
    st, n, node, tr = walk(a, False)
    if node is None or n is None:
        raise FsErr('NotFound')
    st2, n2, old, tr2 = walk(b, False)
    if old is not None and old is not node:
        if type(old) is Dir:
            if type(node) is not Dir:
                raise FsErr('IsADirectory')
            if old.e:
                raise FsErr('DirectoryNotEmpty')
        elif type(node) is Dir:
            raise FsErr('NotADirectory')
        dele(st2[-1], n2)
    if old is node:
        return
    writable(st[-1])
    writable(st2[-1])
    st[-1].e[:] = [x for x in st[-1].e if x[1] is not node]
    add(st2[-1], n2, node)


def canon(path):
    st, n, node, tr = walk(path)
    if node is None:
        raise FsErr('NotFound')
    # names of the physical path
    out = []
    ds = st + [node] if n is not None else st + [node]
    for a, b in zip(ds, ds[1:]):
        for x in a.e:
            if x[1] is b:
                out += [47] + list(x[0])
                break
        else:
            raise Unmodelled('canonicalize')
    return out or [47]


def io(f):
    """Result<T, io::Error> of running f"""
    try:
        return ok(f())
    except FsErr as e:
        return err(ioerr(e.kind))


def u(f, *a):
    f(*a)
    return unit()


def pb(x):
    return list(PB(x))


def reg(names, f):
    """sync models: f(fn, *args) -> python value for Ok, FsErr for Err"""
    m(*names)(lambda fn, *a: io(lambda: f(fn, *a)))


def areg(names, f):
    """async: arguments are captured, the effect happens when polled"""
    def g(fn, *a):
        return fut(lambda: io(lambda: f(fn, *a)))
    m(*names)(g)


def both(n, f, an=None):
    reg(['std::fs::' + n], f)
    areg(['async_std::fs::%s::%s' % (n, n)], f)


class Meta:
    __slots__ = ('node',)

    def __init__(self, node):
        self.node = node


def meta(node):
    return PyObj('meta', node)


def utf8(b):
    from mstr import utf8_ok
    return utf8_ok(b)


def read_str(p):
    b = list(readfile(p))
    if not utf8(b):
        raise FsErr('InvalidData')
    return VecV(b)


F = 'std::fs::'
both('create_dir', lambda fn, p: u(mkdir, pb(p)))
both('create_dir_all', lambda fn, p: u(mkdirs, pb(p)))
both('remove_file', lambda fn, p: u(rmfile, pb(p)))
both('remove_dir', lambda fn, p: u(rmdir, pb(p)))
both('remove_dir_all', lambda fn, p: u(rmtree, pb(p)))
both('hard_link', lambda fn, a, b: u(hard, pb(a), pb(b)))
both('copy', lambda fn, a, b: copyfile(pb(a), pb(b)))
both('rename', lambda fn, a, b: u(rename, pb(a), pb(b)))
both('read_to_string', lambda fn, p: read_str(pb(p)))
both('read', lambda fn, p: VecV(list(readfile(pb(p)))))
both('metadata', lambda fn, p: meta(getnode(pb(p))))
both('symlink_metadata', lambda fn, p: meta(getnode(pb(p), False)))
both('canonicalize', lambda fn, p: VecV(canon(pb(p))))
both('write', lambda fn, p, d: u(writefile, pb(p), bytes_of(d)))
both('read_link', lambda fn, p: VecV(rdlink(pb(p))))
both('set_permissions', lambda fn, p, m_: u(setperm, pb(p), m_))
both('read_dir', lambda fn, p: read_dir(pb(p)))
reg(['std::os::unix::fs::symlink'], lambda fn, a, b: u(mklink, pb(a), pb(b)))
areg(['async_std::os::unix::fs::symlink', 'async_std::os::unix::fs::symlink::symlink'], lambda fn, a, b: u(mklink, pb(a), pb(b)))
reg(['dunce::canonicalize'], lambda fn, p: VecV(canon(pb(p))))


def bytes_of(x):
    t = type(x)
    if t in (SliceRef, VecV):
        return list(S(x))
    if t in (Ref, DynRef):
        return bytes_of(D(x))
    if t is Agg:
        if len(x.f) == 1 and type(x.f[0]) in (SliceRef, VecV, Ref, Agg):
            return bytes_of(x.f[0])
        return list(x.f)
    raise Unmodelled('bytes of %r' % (x,))


def rdlink(p):
    n = getnode(p, False)
    if type(n) is not Link:
        raise FsErr('InvalidInput')
    return list(n.to)


def setperm(p, perm):
    n = getnode(p)
    n.mode = (n.mode & ~0o7777) | (perm.d[0] & 0o7777)


for P_, A_ in (('std::path::Path::', ''), ('async_std::path::path::Path::', 'a')):
    def defp(name, f, P_=P_, A_=A_):
        if A_:
            m(P_ + name)(lambda fn, p: fut(lambda: f(pb(p))))
        else:
            m(P_ + name)(lambda fn, p: f(pb(p)))

    def exists(p):
        try:
            getnode(p)
            return True
        except FsErr:
            return False

    def kindof(p, k):
        try:
            return type(getnode(p)) is k
        except FsErr:
            return False

    def islink(p):
        try:
            return type(getnode(p, False)) is Link
        except FsErr:
            return False
    defp('exists', exists)
    defp('is_dir', lambda p: kindof(p, Dir))
    defp('is_file', lambda p: kindof(p, File))
    defp('is_symlink', islink)
    defp('metadata', lambda p: io(lambda: meta(getnode(p))))
    defp('symlink_metadata', lambda p: io(lambda: meta(getnode(p, False))))
    defp('canonicalize', lambda p: io(lambda: VecV(canon(p))))
    defp('read_link', lambda p: io(lambda: VecV(rdlink(p))))
    defp('read_dir', lambda p: io(lambda: read_dir(p)))
    defp('try_exists', lambda p: ok(exists(p)))

AP = 'async_std::path::'
m(AP + 'path::Path::new')(lambda fn, p: mkref(p))
m(AP + 'path::Path::display')(lambda fn, p: Agg(0, [mkref(p)]))
m(AP + 'path::Path::to_path_buf')(lambda fn, p: VecV(pb(p)))
m(AP + 'path::Path::join')(lambda fn, p, q: VecV(joinb(pb(p), pb(q))))
PBn = '<async_std::path::pathbuf::PathBuf as '
m(PBn + 'core::clone::Clone>::clone', PBn + 'core::convert::From<std::path::PathBuf>>::from', PBn + 'core::convert::Into<std::path::PathBuf>>::into',
  '<std::path::PathBuf as core::convert::From<async_std::path::pathbuf::PathBuf>>::from')(lambda fn, p: VecV(pb(p)))
m(PBn + 'core::cmp::PartialEq>::eq')(lambda fn, a, b: patheq(pb(a), pb(b)))
m(PBn + 'core::convert::AsRef<std::path::Path>>::as_ref', PBn + 'core::ops::deref::Deref>::deref')(lambda fn, p: mkref(p))

# ---------------------------------------------------------------- metadata
for M_ in ('std::fs::Metadata::', 'std::fs::FileType::'):
    m(M_ + 'is_dir')(lambda fn, r: type(D(r).d) is Dir)
    m(M_ + 'is_file')(lambda fn, r: type(D(r).d) is File)
    m(M_ + 'is_symlink')(lambda fn, r: type(D(r).d) is Link)
m('std::fs::Metadata::file_type')(lambda fn, r: PyObj('meta', D(r).d))
m('std::fs::Metadata::len')(lambda fn, r: len(D(r).d.data))
m('std::fs::Metadata::permissions')(lambda fn, r: PyObj('perm', [D(r).d.mode]))
PE = '<std::fs::Permissions as std::os::unix::fs::PermissionsExt>::'
m(PE + 'mode')(lambda fn, r: D(r).d[0])
m(PE + 'set_mode')(lambda fn, r, x: (D(r).d.__setitem__(0, x), unit())[1])
m(PE + 'from_mode')(lambda fn, x: PyObj('perm', [x]))
m('<std::fs::Metadata as std::os::unix::fs::MetadataExt>::mode')(lambda fn, r: D(r).d.mode)
m('<std::fs::Metadata as std::os::unix::fs::MetadataExt>::ino')(lambda fn, r: id(D(r).d))


# ---------------------------------------------------------------- directories
class DirIter:
    """a directory stream: entries are read when the first one is asked for"""
    __slots__ = ('path', 'node', 'q')

    def __init__(self, path, node):
        self.path = list(path)
        self.node = node
        self.q = None

    def next(self):
        if self.q is None:
            self.q = list(self.node.e)
        if not self.q:
            return None
        x = self.q.pop(0)
        return PyObj('dent', (joinb(list(self.path), list(x[0])), x[1], list(x[0])))


def read_dir(p):
    n = getnode(p)
    if type(n) is not Dir:
        raise FsErr('NotADirectory')
    return PyObj('dir', DirIter(p, n))


def PV(r, k):
    r = unpin(r) if type(r) is Agg else r
    while type(r) in (Ref, DynRef):
        r = D(r)
    if type(r) is Agg and len(r.f) == 1:
        return PV(r.f[0], k)
    if type(r) is not PyObj or r.k != k:
        raise Unmodelled('expected %s, got %r' % (k, r))
    return r.d


def oknext(it):
    x = it.next()
    return none() if x is None else some(ok(x))


m('<std::fs::ReadDir as core::iter::traits::iterator::Iterator>::next')(lambda fn, r: oknext(PV(r, 'dir')))
m('<async_std::fs::read_dir::ReadDir as futures_core::stream::Stream>::poll_next')(lambda fn, r, cx: ready(oknext(PV(r, 'dir'))))
for D_ in ('std::fs::DirEntry::', 'async_std::fs::dir_entry::DirEntry::', 'walkdir::dent::DirEntry::'):
    isw = D_.startswith('walk')
    m(D_ + 'path')(lambda fn, r, w=isw: SliceRef(PV(r, 'dent')[0], 0, len(PV(r, 'dent')[0])) if w else VecV(list(PV(r, 'dent')[0])))
    m(D_ + 'file_name')(lambda fn, r, w=isw: SliceRef(PV(r, 'dent')[2], 0, len(PV(r, 'dent')[2])) if w else VecV(list(PV(r, 'dent')[2])))
    if D_.startswith('async'):
        m(D_ + 'file_type')(lambda fn, r: fut(lambda: ok(PyObj('meta', PV(r, 'dent')[1]))))
        m(D_ + 'metadata')(lambda fn, r: fut(lambda: ok(PyObj('meta', PV(r, 'dent')[1]))))
    elif isw:
        m(D_ + 'file_type')(lambda fn, r: PyObj('meta', PV(r, 'dent')[1]))
        m(D_ + 'path_is_symlink')(lambda fn, r: type(PV(r, 'dent')[1]) is Link)
        m(D_ + 'depth')(lambda fn, r: PV(r, 'dent')[3])
        m(D_ + 'into_path')(lambda fn, r: VecV(list(PV(r, 'dent')[0])))
    else:
        m(D_ + 'file_type', D_ + 'metadata')(lambda fn, r: ok(PyObj('meta', PV(r, 'dent')[1])))


# ---------------------------------------------------------------- walkdir
class Walk:
    def __init__(self, path):
        self.path = path
        self.st = None
        self.pred = None
        self.min = 0

    def start(self):
        self.st = []
        node = getnode(self.path, False)
        return self.emit(self.path, node, 0)

    def emit(self, path, node, depth):
        name = comps(path)
        nm = path[name[-1][1]:name[-1][2]] if name else list(path)
        d = PyObj('dent', (list(path), node, nm, depth))
        t = node
        if depth == 0 and type(node) is Link:
            try:
                t = getnode(path)
            except FsErr:
                t = node
        isd = type(node) is Dir or (depth == 0 and type(t) is Dir)
        if self.pred is not None and not truth(VM.call_value(self.pred, [Ref([d], 0)])):
            return None
        if isd:
            self.st.append(DirIter(path, t))
        return d

    def next(self):
        while True:
            if self.st is None:
                try:
                    d = self.start()
                except FsErr as e:
                    return some(err(ioerr(e.kind)))
            elif not self.st:
                return none()
            else:
                x = self.st[-1].next()
                if x is None:
                    self.st.pop()
                    continue
                d = self.emit(x.d[0], x.d[1], len(self.st))
            if d is not None and d.d[3] >= self.min:
                return some(ok(d))


def filt(fn, w, f):
    w.d.pred = Ref([f], 0)
    return w


m('walkdir::WalkDir::new')(lambda fn, p: PyObj('walk', Walk(pb(p))))
m('walkdir::WalkDir::min_depth')(lambda fn, w, n: (setattr(w.d, 'min', n), w)[1])
m('<walkdir::WalkDir as core::iter::traits::collect::IntoIterator>::into_iter')(lambda fn, w: w)
m('walkdir::IntoIter::filter_entry')(filt)
m('walkdir::IntoIter::skip_current_dir', '<walkdir::FilterEntry<walkdir::IntoIter, P>>::skip_current_dir')(lambda fn, r: (PV(r, 'walk').st.pop() if PV(r, 'walk').st else None, unit())[1])
m('<walkdir::IntoIter as core::iter::traits::iterator::Iterator>::next', '<walkdir::FilterEntry<walkdir::IntoIter, P> as core::iter::traits::iterator::Iterator>::next')(
    lambda fn, r: PV(r, 'walk').next())


# ---------------------------------------------------------------- temporary files
class Temp:
    __slots__ = ('path', 'node', 'live', 'pos')

    def __init__(self, path, node):
        self.path = path
        self.node = node
        self.live = True
        self.pos = 0


def tmpname(d):
    f = fs()
    f.ntmp += 1
    return joinb(list(d), list(b'.tmp%06d' % f.ntmp))


def mktmp(d, isd):
    p = tmpname(d)
    if isd:
        mkdir(p)
        return PyObj('tempdir', Temp(p, None))
    return PyObj('tempfile', Temp(p, writefile(p, [], 0o600, create_new=True)))


def TMP():
    if not isdir(list(b'/tmp')):
        mkdirs(list(b'/tmp'))
    return list(b'/tmp')


TF = 'tempfile::file::NamedTempFile'
reg([TF + '::new_in', TF + '::<F>::new_in'], lambda fn, d: mktmp(pb(d), False))
reg(['tempfile::dir::TempDir::new_in'], lambda fn, d: mktmp(pb(d), True))
reg([TF + '::new'], lambda fn: mktmp(TMP(), False))
reg(['tempfile::dir::tempdir', 'tempfile::dir::TempDir::new'], lambda fn: mktmp(TMP(), True))
m(TF + '::<F>::path')(lambda fn, r: mkpath(PV(r, 'tempfile').path))
m('tempfile::dir::TempDir::path')(lambda fn, r: mkpath(PV(r, 'tempdir').path))
m('<tempfile::file::NamedTempFile<F> as core::convert::AsRef<std::path::Path>>::as_ref')(lambda fn, r: mkpath(PV(r, 'tempfile').path))


def tseek(fn, r, to):
    t = PV(r, 'tempfile')
    n = CUR.P.conc(to.f[0])
    if to.v:
        n = (n - (1 << 64) if n >> 63 else n) + (len(t.node.data) if to.v == 1 else t.pos)
    if n < 0:
        return err(ioerr('InvalidInput'))
    t.pos = n
    return ok(n)


def twrite(t, b):
    b = list(S(b))
    d = t.node.data
    d += [0] * (t.pos - len(d))
    d[t.pos:t.pos + len(b)] = b
    t.pos += len(b)
    return len(b)


def tfread(fn, r, buf):
    t = PV(r, 'tempfile')
    b = t.node.data[t.pos:t.pos + buf.n]
    t.pos += len(b)
    buf.l[buf.o:buf.o + len(b)] = b
    return ok(len(b))


for _w in ('core', 'std', 'alloc'):
    _t = '<tempfile::file::NamedTempFile<F> as %s::io::' % _w
    m(_t + 'seek::Seek>::seek')(tseek)
    m(_t + 'write::Write>::write_all')(lambda fn, r, b: (twrite(PV(r, 'tempfile'), b), ok(unit()))[1])
    m(_t + 'write::Write>::write')(lambda fn, r, b: ok(twrite(PV(r, 'tempfile'), b)))
    m(_t + 'write::Write>::flush')(lambda fn, r: ok(unit()))
    m(_t + 'read::Read>::read')(tfread)


_pp = PB


def droptemp(v):
    if type(v) is PyObj and v.k in ('tempfile', 'tempdir'):
        if v.d.live:
            v.d.live = False
            try:
                (rmtree if v.k == 'tempdir' else rmfile)(v.d.path)
            except FsErr:
                pass
    elif type(v) is Agg:
        for x in v.f:
            droptemp(x)
    masync.dropval(v) if type(v) is PyObj else None


_olddrop = VM.dropval


def dropall(v):
    if type(v) is PyObj and v.k in ('tempfile', 'tempdir'):
        return droptemp(v)
    if type(v) is PyObj and v.k == 'overwrite':
        r, x = v.d
        r.c[r.i] = x
        return
    if type(v) is Agg:
        for x in v.f:
            dropall(x)
        return
    _olddrop(v)


m('pin_project_lite::__private::UnsafeOverwriteGuard::<T>::new')(lambda fn, r, x: PyObj('overwrite', (r, x)))
m('pin_project_lite::__private::UnsafeDropInPlaceGuard::<T>::new')(lambda fn, r: unit())


VM.dropval = dropall

# reflinks: unsupported by the file system
reg(['reflink_copy::reflink', 'reflink_copy::reflink_or_copy'], lambda fn, a, b: noreflink())


def noreflink():
    raise FsErr('Other')


# ---------------------------------------------------------------- OpenOptions / File
@m('std::fs::OpenOptions::new')
def _(fn):
    return PyObj('oo', dict(mode=0o666))


for _n in ('read', 'write', 'append', 'truncate', 'create', 'create_new'):
    def _setter(fn, r, b, n=_n):
        D(r).d[n] = truth(b)
        return r
    m('std::fs::OpenOptions::' + _n)(_setter)


@m('<std::fs::OpenOptions as std::os::unix::fs::OpenOptionsExt>::mode')
def _(fn, r, b):
    D(r).d['mode'] = b
    return r


def oopen(o, p):
    g = o.get
    node = writefile(p, None, o['mode'], create_new=g('create_new', False), create=g('create', False) or g('create_new', False), trunc=g('truncate', False)) \
        if g('write') or g('append') else getnode(p)
    return PyObj('file', [node, len(node.data) if g('append') and type(node) is File else 0])


reg(['std::fs::OpenOptions::open'], lambda fn, r, p: oopen(D(r).d, pb(p)))
reg(['std::fs::File::open'], lambda fn, p: PyObj('file', [getnode(pb(p)), 0]))
reg(['std::fs::File::create'], lambda fn, p: PyObj('file', [writefile(pb(p), []), 0]))


def fwrite(fn, r, b):
    d = PV(r, 'file')
    b = list(S(b))
    d[0].data[d[1]:d[1] + len(b)] = b
    d[1] += len(b)
    return len(b)


for _t in ('std::fs::File', '&std::fs::File'):
    for _w in ('core', 'std', 'alloc'):
        m('<%s as %s::io::write::Write>::write' % (_t, _w))(lambda fn, r, b: ok(fwrite(fn, r, b)))
        m('<%s as %s::io::write::Write>::write_all' % (_t, _w))(lambda fn, r, b: (fwrite(fn, r, b), ok(unit()))[1])
        m('<%s as %s::io::write::Write>::flush' % (_t, _w))(lambda fn, r: ok(unit()))

# ---------------------------------------------------------------- readers
# BufReader / GzDecoder / TeeReader wrap another reader; the archive reads everything at once.


def wrap(k):
    return lambda fn, x, *a: PyObj('rd', [k, x, fn['ga'], a])


for _a in ('alloc', 'std', 'core'):
    m('%s::io::buffered::bufreader::BufReader::<R>::new' % _a)(wrap('buf'))
m('flate2::gz::read::GzDecoder::<R>::new')(wrap('gz'))
m('io_tee::TeeReader::<R, W>::new')(lambda fn, r, w: PyObj('rd', ['tee', r, w]))


def drain(v):
    """every remaining byte of a reader"""
    while type(v) in (Ref, DynRef):
        v = D(v)
    if type(v) is PyObj and v.k == 'rd':
        b = drain(v.d[1])
        if v.d[0] == 'tee':
            w = v.d[2]
            opts_input(w, b)
        return b
    if type(v) is PyObj and v.k == 'tempfile':
        b, v.d.pos = v.d.node.data[v.d.pos:], len(v.d.node.data)
        return b
    if type(v) is Agg and len(v.f) == 1:
        return drain(v.f[0])
    if type(v) is Agg and len(v.f) == 2:       # Cursor { inner, pos }
        l = bytes_of(v.f[0])
        p = v.f[1]
        v.f[1] = len(l)
        return l[p:]
    raise Unmodelled('drain %r' % (v,))


def opts_input(w, b):
    o = w
    while type(o) in (Ref, DynRef):
        o = D(o)
    # IntegrityOpts { hashers: Vec<Hasher>, disturbed }
    o.f[1] = True
    for h in o.f[0].l:
        hasher(h.f[0]).append(list(b))


m('<io_tee::TeeReader<R, W> as alloc::io::read::Read>::read', '<io_tee::TeeReader<R, W> as std::io::Read>::read', '<io_tee::TeeReader<R, W> as core::io::read::Read>::read')(
    lambda fn, r, buf: (drain(r), ok(0))[1])


# ---------------------------------------------------------------- tar
MAGIC = [0x1f, 0x8b]


def tarpad(es):
    return [0] * (1500 if sum(len(x[3]) for x in es) > 1500 else 0)


@m('vh::sym::tgz')
def _(fn, files):
    t = CUR.P.env.setdefault('tars', [])
    es = []
    for f in S(files):
        path, mode, kind, data = f.f
        es.append((list(path.l)[:100], mode, CUR.P.conc(kind), list(data.l)))
    # the archive's bytes: concrete, and different for different archives
    for i, o in enumerate(t):
        if len(o) == len(es) and all(len(x[0]) == len(y[0]) and x[1:3] == y[1:3] and len(x[3]) == len(y[3]) for x, y in zip(o, es)):
            if all(truth(eqlist(x[0], y[0])) and truth(eqlist(x[3], y[3])) for x, y in zip(o, es)):
                return VecV(MAGIC + list(b'%06d' % i) + tarpad(es))
    t.append(es)
    # (what's large stays large)
    return VecV(MAGIC + list(b'%06d' % (len(t) - 1)) + tarpad(es))


def tarof(b):
    if len(b) >= 8 and all(type(x) is int for x in b) and b[:2] == MAGIC and all(48 <= x < 58 for x in b[2:8]):
        i = int(bytes(b[2:8]))
        t = CUR.P.env.get('tars', [])
        if i < len(t) and b[8:] == tarpad(t[i]):
            return t[i]
    return None


m('tar::archive::Archive::<R>::new')(lambda fn, r: PyObj('ar', [r, fn['ga']]))


@m('tar::archive::Archive::<R>::entries')
def _(fn, r):
    b = drain(PV(r, 'ar')[0])
    es = tarof(b)
    if es is None and FSDBG:
        print('not a tar', b, PV(r, 'ar')[0])
    if es is None:
        return ok(PyObj('ents', [None]))
    return ok(PyObj('ents', list(es)))


@m("<tar::archive::Entries<'a, R> as core::iter::traits::iterator::Iterator>::next")
def _(fn, r):
    q = PV(r, 'ents')
    if not q:
        return none()
    e = q.pop(0)
    if e is None:
        return some(err(ioerr('InvalidInput')))
    path, mode, kind, data = e
    return some(ok(PyObj('tent', [list(path), mode, kind, list(data) if kind == 48 else [], 0])))


m("tar::entry::Entry::<'a, R>::header")(lambda fn, r: Ref([PyObj('thdr', PV(r, 'tent'))], 0))
m("tar::header::Header::mode")(lambda fn, r: ok(PV(r, 'thdr')[1]))
m("tar::header::Header::path")(lambda fn, r: ok(Agg(0, [SliceRef(PV(r, 'thdr')[0], 0, len(PV(r, 'thdr')[0]))])))
m("tar::header::Header::entry_type")(lambda fn, r: Agg({48: 0, 50: 2, 53: 5}[PV(r, 'thdr')[2]], []))


def tread(e):
    b, e[4] = e[3][e[4]:], len(e[3])
    return b


m("<tar::entry::Entry<'a, R> as alloc::io::read::Read>::read", "<tar::entry::Entry<'a, R> as core::io::read::Read>::read", "<tar::entry::Entry<'a, R> as std::io::Read>::read")(
    lambda fn, r, buf: ok(fillbuf(buf, PV(r, 'tent'))))


def fillbuf(buf, e):
    n = min(buf.n, len(e[3]) - e[4])
    buf.l[buf.o:buf.o + n] = e[3][e[4]:e[4] + n]
    e[4] += n
    return n


def wr(w, b):
    """write all of b to a modelled writer"""
    while type(w) in (Ref, DynRef):
        w = D(w)
    if type(w) is PyObj:
        if w.k == 'wr':
            return wr(w.d, b)
        if w.k == 'file':
            w.d[0].data[w.d[1]:w.d[1] + len(b)] = b
            w.d[1] += len(b)
            return
        if w.k == 'ccw':
            w.d[1] += b
            return
        if w.k == 'tempfile':
            w.d.node.data += b
            return
    raise Unmodelled('write to %r' % (w,))


for _a in ('alloc', 'std', 'core'):
    m('%s::io::buffered::bufwriter::BufWriter::<W>::new' % _a)(lambda fn, w: PyObj('wr', w))


for _a in ('alloc::io::copy', 'std::io::copy', 'core::io::copy', 'alloc::io::copy::generic', 'std::io::copy::copy', 'alloc::io::copy::copy'):
    @m(_a)
    def _(fn, r, w):
        b = tread(PV(r, 'tent'))
        wr(w, b)
        return ok(len(b))


# ---------------------------------------------------------------- digests
ALG = {'sha1': ('sha1', 20), 'Sha1': ('sha1', 20), 'Sha256': ('sha256', 32), 'Sha384': ('sha384', 48), 'Sha512': ('sha512', 64)}


def hasher(h):
    while type(h) in (Ref, DynRef):
        h = D(h)
    if type(h) is Agg and len(h.f) == 1:
        return hasher(h.f[0])
    return h.d[1]


def digest(alg, n, data):
    """collision-free digest: real for concrete data, a fresh constant per distinct symbolic value otherwise"""
    if all(type(x) is int for x in data) and alg != 'xxh3':
        conc = hashlib.new(alg, bytes(data)).digest()
    else:
        conc = None
    t = CUR.P.env.setdefault('digests', [])
    for a, d, r in t:
        if a == alg and len(d) == len(data) and (conc is None or any(type(x) is not int for x in d) or d == data):
            if truth(eqlist(d, data)):
                return r
    if conc is None:
        conc = hashlib.shake_128(b'%s%d' % (alg.encode(), len(t))).digest(n)
    t.append((alg, list(data), conc))
    return conc


def algof(fn):
    t = VM.tname(fn['ga'][0])
    if 'sha1' in t or 'Sha1' in t:
        return 'sha1', 20
    for k, v in (('Sha224', ('sha224', 28)), ('Sha256', ('sha256', 32)), ('Sha384', ('sha384', 48)), ('Sha512', ('sha512', 64))):
        if k in t:
            return v
    for k, v in (('U32', ('sha256', 32)), ('512', ('sha512', 64)), ('384', ('sha384', 48)), ('256', ('sha256', 32))):
        if k in t:
            return v
    raise Unmodelled('digest ' + t)


DG = '<D as digest::digest::Digest>::'
m(DG + 'new')(lambda fn: PyObj('dg', [algof(fn), []]))


@m(DG + 'update')
def _(fn, r, b):
    hasher(r).append(bytes_of(b))
    return unit()


def fin(d):
    (a, n), ch = d
    return digest(a, n, [x for c in ch for x in c])


m(DG + 'finalize')(lambda fn, r: VecV(list(fin(r.d if type(r) is PyObj else PV(r, 'dg')))))
m('<digest::core_api::wrapper::CoreWrapper<T> as core::clone::Clone>::clone')(lambda fn, r: (lambda d: PyObj('dg', [d[0], [list(x) for x in d[1]]]))(PV(r, 'dg')))
m("generic_array::impls::<impl core::convert::AsRef<[T]> for generic_array::GenericArray<T, N>>::as_ref",
  '<generic_array::GenericArray<T, N> as core::ops::deref::Deref>::deref')(lambda fn, r: mkref(r))
m('xxhash_rust::xxh3::Xxh3::new')(lambda fn: PyObj('dg', [('xxh3', 16), []]))
m('xxhash_rust::xxh3::Xxh3::update')(lambda fn, r, b: (hasher(r).append(bytes_of(b)), unit())[1])
m('xxhash_rust::xxh3::Xxh3::digest128')(lambda fn, r: int.from_bytes(fin(PV(r, 'dg')), 'big'))


# ---------------------------------------------------------------- cacache
def sri_str(s):
    while type(s) in (Ref, DynRef):
        s = D(s)
    # Integrity { hashes: Vec<Hash { algorithm, digest }> }
    h = s.f[0].l[0]
    return h.f[0].v, bytes(h.f[1].l)


def cpath(cache, sri):
    a, d = sri_str(sri)
    import base64
    try:
        hx = base64.b64decode(d).hex()
    except Exception:
        hx = d.hex()
    return list(cache) + list(('/content-v2/%d/%s' % (a, hx)).encode())


m('cacache::put::WriteOpts::new', '<cacache::put::WriteOpts as core::default::Default>::default')(lambda fn: PyObj('wo', {}))
for _n in ('algorithm', 'integrity', 'raw_metadata', 'size', 'time', 'metadata'):
    m('cacache::put::WriteOpts::' + _n)(lambda fn, w, x, n=_n: (w.d.__setitem__(n, x), w)[1])


def cerr(e):
    """cacache::Error::IoError(io::Error, String)"""
    return err(Agg(CCE['IoError'], [ioerr(e.kind), mkString('cache')]))


CCE = dict(EntryNotFound=0, SizeMismatch=1, IoError=2, SerdeError=3, IntegrityError=4)


def cio(f):
    try:
        return ok(f())
    except FsErr as e:
        return cerr(e)


def ccopen(cache):
    mkdirs(cache + list(b'/tmp'))
    return PyObj('ccw', [cache, []])


m('cacache::put::WriteOpts::open_hash_sync')(lambda fn, w, c: cio(lambda: ccopen(pb(c))))


@m('<cacache::put::SyncWriter as core::io::write::Write>::write')
def _(fn, r, b):
    PV(r, 'ccw')[1] += list(S(b))
    return ok(len(S(b)))


@m('cacache::put::SyncWriter::commit')
def _(fn, w):
    cache, data = w.d
    import base64
    d = digest('xxh3', 16, data)
    sri = Agg(0, [VecV([Agg(0, [Agg(4, []), VecV(list(base64.b64encode(d)))])])])

    def go():
        p = cpath(cache, sri)
        mkdirs(p[:p.index(47, len(cache) + 1) + 0] + list(b'/4')) if False else mkdirs(parent(p))
        st, n, old, tr = walk(p, False)
        if old is not None:
            dele(st[-1], n)
        add(st[-1], n, File(data, 0o600))
        return sri
    return cio(go)


def parent(p):
    from mpath import parent_end
    return p[:parent_end(p)]


def checked(cache, sri):
    """content bytes if present and intact"""
    data = readfile(cpath(cache, sri))
    a, d = sri_str(sri)
    import base64
    if base64.b64encode(digest('xxh3', 16, data)) != d:
        raise FsErr('IntegrityError')
    return data


def cc(f):
    try:
        return ok(f())
    except FsErr as e:
        if e.kind == 'IntegrityError':
            return err(Agg(CCE['IntegrityError'], [OPAQUE]))
        return cerr(e)


def ccopy(cache, sri, to):
    data = checked(cache, sri)
    return copyfile(cpath(cache, sri), to)


def clink(cache, sri, to):
    hard(cpath(cache, sri), to)
    checked(cache, sri)
    return unit()


def creflink(cache, sri, to):
    checked(cache, sri)
    raise FsErr('Other')


m('cacache::get::copy_hash_sync')(lambda fn, c, s, t: cc(lambda: ccopy(pb(c), s, pb(t))))
m('cacache::get::hard_link_hash_sync')(lambda fn, c, s, t: cc(lambda: clink(pb(c), s, pb(t))))
m('cacache::get::reflink_hash_sync')(lambda fn, c, s, t: cc(lambda: creflink(pb(c), s, pb(t))))
m('cacache::rm::remove_hash_sync')(lambda fn, c, s: cc(lambda: u(rmfile, cpath(pb(c), s))))


@m('cacache::index::insert')
def _(fn, cache, key, opts):
    f = fs()
    c, k = pb(cache), bytes_of(key)
    f.index = [x for x in f.index if not (x[0] == c and truth(eqlist(x[1], k)))]
    f.index.append((c, k, opts.d))
    return ok(opts.d['integrity'] if 'integrity' in opts.d else OPAQUE)


@m('cacache::index::find')
def _(fn, cache, key):
    c, k = pb(cache), bytes_of(key)
    for x in fs().index:
        if x[0] == c and truth(eqlist(x[1], k)):
            d = x[2]
            raw = d.get('raw_metadata')
            return ok(some(Agg(0, [VecV(list(k)), d.get('integrity', OPAQUE), 0, 0, OPAQUE, none() if raw is None else some(VecV(list(raw.l)))])))
    return ok(none())


@m('cacache::rm::remove_sync')
def _(fn, cache, key):
    f = fs()
    c, k = pb(cache), bytes_of(key)
    f.index = [x for x in f.index if not (x[0] == c and truth(eqlist(x[1], k)))]
    return ok(unit())


# rkyv: the archived index is the value itself
@m('rkyv::util::to_bytes')
def _(fn, r):
    from mcore import deep_clone
    return ok(VecV([PyObj('archived', deep_clone(D(r)))]))


m('rkyv::util::aligned_vec::AlignedVec::into_vec')(lambda fn, v: v)


@m('rkyv::validation::validators::check_archived_root')
def _(fn, b):
    l = S(b)
    if len(l) == 1 and type(l[0]) is PyObj and l[0].k == 'archived':
        return ok(Ref([l[0].d], 0))
    return err(OPAQUE)


m('<rkyv::validation::CheckArchiveError<T, C> as core::fmt::Display>::fmt')(
    lambda fn, e, f: (mfmt.pad(mfmt.F_(f), list(b"invalid archive")), mfmt.okf())[1])

RK = 'rkyv::string::ArchivedString'
m(RK + '::as_str', '<%s as core::ops::deref::Deref>::deref' % RK, '<%s as core::ops::index::Index<core::ops::range::RangeFull>>::index' % RK)(lambda fn, r, *a: mkref(r))
m('<%s as core::cmp::PartialEq>::eq' % RK)(lambda fn, a, b: eqlist(bytes_of(a), bytes_of(b)))
m('<rkyv::vec::ArchivedVec<T> as core::ops::deref::Deref>::deref')(lambda fn, r: SliceRef(D(r).l, 0, len(D(r).l)))
RH = 'rkyv::collections::hash_map::'
m(RH + 'ArchivedHashMap::<K, V>::iter')(lambda fn, r: PyIter([tup(Ref(x, 0), Ref(x, 1)) for x in D(r).d.e]))
m(RH + 'ArchivedHashMap::<K, V>::values')(lambda fn, r: PyIter([Ref(x, 1) for x in D(r).d.e]))
m("<rkyv::collections::hash_map::Iter<'a, K, V> as core::iter::traits::iterator::Iterator>::next",
  "<rkyv::collections::hash_map::Values<'a, K, V> as core::iter::traits::iterator::Iterator>::next")(lambda fn, r: opt(D(r).next()))

# ---------------------------------------------------------------- dashmap
DM = 'dashmap::DashMap::<K, V, S>::'


def dmkey(a, b, fn, i=0):
    t = VM.tname(fn['ga'][i])
    if 'Path' in t:
        return patheq(pb(a), pb(b))
    return deq(a, b)


def dmfind(fn, r, k):
    for x in PV(r, 'dm'):
        if truth(dmkey(x[0], k, fn)):
            return x
    return None


m('dashmap::DashMap::<K, V>::new', 'dashmap::set::DashSet::<K>::new', '<dashmap::DashMap<K, V, S> as core::default::Default>::default')(lambda fn, *a: PyObj('dm', []))
m('dashmap::set::DashSet::<K, S>::contains', DM + 'contains_key')(lambda fn, r, k: dmfind(fn, r, k) is not None)


@m('dashmap::set::DashSet::<K, S>::insert')
def _(fn, r, k):
    if dmfind(fn, r, k) is not None:
        return False
    PV(r, 'dm').append([k, unit()])
    return True


@m(DM + 'insert')
def _(fn, r, k, v):
    x = dmfind(fn, r, k)
    if x is not None:
        old, x[1] = x[1], v
        return some(old)
    PV(r, 'dm').append([k, v])
    return none()


@m(DM + 'get')
def _(fn, r, k):
    x = dmfind(fn, r, k)
    return none() if x is None else some(PyObj('dmref', x))


m("dashmap::mapref::one::Ref::<'a, K, V, S>::value", "<dashmap::mapref::one::Ref<'a, K, V, S> as core::ops::deref::Deref>::deref")(lambda fn, r: Ref(PV(r, 'dmref'), 1))


# ---------------------------------------------------------------- spawn_blocking
m('<async_std::task::join_handle::JoinHandle<T> as core::future::future::Future>::poll')(masync.poll_stub)


# async_std::io::BufReader: requests of at least its capacity go straight to the reader
m('async_std::io::buf_reader::BufReader::<R>::new')(lambda fn, r: PyObj('abuf', [r]))


@m('<async_std::io::buf_reader::BufReader<R> as futures_io::if_std::AsyncRead>::poll_read', needs=[('poll_read', 0)])
def _(fn, p, cx, buf):
    d = PV(p, 'abuf')
    if buf.n < 8192:
        raise Unmodelled('small read from BufReader')
    return VM.F[impl(fn, 0, 'poll_read')](pin(Ref(d, 0)), cx, buf)


# backon: one attempt (a retried operation would see the same file system)
m('<backon::constant::ConstantBuilder as core::default::Default>::default')(lambda fn: OPAQUE)
m('backon::constant::ConstantBuilder::with_delay')(lambda fn, b, d: b)
m('<F as backon::blocking_retry::BlockingRetryable<B, T, E, F>>::retry')(lambda fn, f, b: PyObj('retry', f))
m('backon::blocking_retry::BlockingRetry::<B, T, E, F, RF, NF>::notify')(lambda fn, r, n: r)
m('backon::blocking_retry::BlockingRetry::<B, T, E, F, RF, NF>::call')(lambda fn, r: VM.call_value(Ref([r.d], 0), []))

m('vh::sym::fs_root')(lambda fn: (fs(), VecV(list(SCRATCH.encode())))[1])

# environment
m('std::env::current_dir')(lambda fn: ok(VecV(list(CUR.P.env.get('cwd', SCRATCH).encode()))))


@m('<&mut T as futures_io::if_std::AsyncRead>::poll_read', '<alloc::boxed::Box<T> as futures_io::if_std::AsyncRead>::poll_read', needs=[('poll_read', 0)])
def _(fn, p, cx, buf):
    r = unpin(p)
    return VM.F[impl(fn, 0, 'poll_read')](pin(r.c[r.i]), cx, buf)
