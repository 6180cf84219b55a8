"""Processes: `sh -c` of the few commands that the harness's scripts are made of, run against the model of the file system.

A script runs up to its first `sleep` when it is spawned, and to its end when someone has waited for it for a while."""
from mcore import *
import re
import mfs
import masync
from mfs import PV, io, pb, fs, FsErr, writefile, readfile, ioerr, m, isdir
from mpath import joinb
from masync import pending, ready, waker_of

ENV = [(b'HOME', b'/root'), (b'PATH', b'/usr/bin:/bin')]


def conc(l):
    l = list(l)
    if not all(type(x) is int for x in l):
        raise Unmodelled('symbolic text in a process')
    return bytes(l)


def txt(x):
    return conc(pb(x))


class Child:
    __slots__ = ('cwd', 'env', 'todo', 'out', 'code', 'left')


def words(s):
    return s.split()


def exists(p):
    """whether there is a program"""
    try:
        n = mfs.getnode(list(p))
        return type(n) is mfs.File and (type(n.mode) is not int or n.mode & 0o111 != 0)
    except FsErr:
        return False


def shell(c, cmds, until_sleep):
    """run commands; False if there are some left after a sleep"""
    while cmds:
        s = cmds.pop(0)
        to = None
        if b'>>' in s:
            s, to = s.split(b'>>')
            to = conc(joinb(list(c.cwd), list(to.strip())))
        w = words(s)
        if not w:
            continue
        r = []
        if w[0] == b'sleep':
            if until_sleep:
                return False
            continue
        elif w[0] == b'exit':
            c.code = int(w[1])
            del cmds[:]
            return True
        elif w[0] == b'kill':
            if w[1:] != [b'-9', b'$$']:
                raise Unmodelled('kill')
            c.code = None
            del cmds[:]
            return True
        elif w[0] == b'cat':
            try:
                r = conc(readfile(list(conc(joinb(list(c.cwd), list(w[1])))))).split(b'\n')
                c.code = 0
            except FsErr:
                c.code = 1
        elif w[0] == b'echo':
            r = [b' '.join(w[1:])]
        else:
            f = None
            for d in c.env.get(b'PATH', b'').split(b':'):
                if d in (b'/usr/bin', b'/bin') and w[0] == b'uname':
                    f = b'-'
                    break
                p = conc(joinb(list(joinb(list(c.cwd), list(d))), list(w[0])))
                if exists(p):
                    f = p
                    break
            if f is None:
                c.code = 127
                continue
            if f == b'-':
                f, r, c.code = None, [b'Linux'], 0
        if w[0] not in (b'echo', b'cat') and f is not None:
            sub = [x for x in conc(readfile(list(f))).split(b'\n') if not x.startswith(b'#')]
            k = Child()
            k.cwd, k.env, k.out, k.code = c.cwd, c.env, [], 0
            shell(k, sub, False)
            r = k.out
            c.code = 137 if k.code is None else k.code
            if to is None:
                c.out += r
                continue
        if w[0] == b'echo':
            c.code = 0
        if to is None:
            c.out += r
        else:
            try:
                writefile(list(to), list(b''.join(x + b'\n' for x in r)), trunc=False, append=True)
            except FsErr:
                c.code = 1
    return True


C = 'std::process::Command::'


@m(C + 'new')
def _(fn, p):
    return PyObj('cmd', dict(prog=txt(p), args=[], cwd=None, env={}))


def setter(name, f):
    @m(C + name)
    def _(fn, r, *a):
        f(PV(r, 'cmd'), *a)
        return r


setter('arg', lambda d, a: d['args'].append(txt(a)))
setter('current_dir', lambda d, a: d.__setitem__('cwd', txt(a)))
setter('env', lambda d, k, v: d['env'].__setitem__(txt(k), txt(v)))
for _n in ('stdin', 'stdout', 'stderr'):
    setter(_n, lambda d, a: None)
m('std::process::Stdio::null', 'std::process::Stdio::piped', 'std::process::Stdio::inherit')(lambda fn: OPAQUE)
m('<T as core::convert::Into<std::process::Stdio>>::into')(lambda fn, x: x)


@m(C + 'spawn')
def _(fn, r):
    d = PV(r, 'cmd')
    if d['prog'] != b'sh' or len(d['args']) != 2 or d['args'][0] != b'-c':
        raise Unmodelled('running %r' % d)
    c = Child()
    c.cwd = d['cwd']
    if not isdir(list(c.cwd)):
        return err(ioerr('NotFound'))
    c.env = dict(ENV)
    c.env.update(d['env'])
    c.out = []
    c.code = 0
    c.todo = [x.strip() for x in d['args'][1].split(b';')]
    done = shell(c, c.todo, True)
    c.left = 1 if done else 7
    ch = PyObj('child', c)
    return ok(Agg(0, [ch, none(), some(PyObj('childout', [c, True])), some(PyObj('childout', [c, False]))]))


m('std::process::Child::id')(lambda fn, r: 4242)


def children(x, seen, depth=0):
    if depth > 12:
        return
    if type(x) is PyObj:
        if x.k == 'child':
            seen.append(x.d)
        elif x.k == 'childout':
            seen.append(x.d[0])
    elif type(x) is Agg:
        for y in x.f:
            children(y, seen, depth + 1)


def finish(c):
    c.left = 0
    if c.todo:
        shell(c, c.todo, False)


@m('std::process::Child::wait')
def _(fn, r):
    c = D(r)
    c = c.f[0].d if type(c) is Agg else c.d
    finish(c)
    return ok(PyObj('exit', c.code))


m('std::process::ExitStatus::success')(lambda fn, r: D(r).d == 0)
m('std::process::ExitStatus::code')(lambda fn, r: none() if D(r).d is None else some(D(r).d))
m('<std::process::ExitStatus as std::os::unix::process::ExitStatusExt>::signal')(lambda fn, r: some(9) if D(r).d is None else none())


# what a process prints
@m('alloc::io::buf_read::BufRead::lines', '<std::io::buffered::bufreader::BufReader<R> as std::io::BufRead>::lines')
def _(fn, r):
    v = r
    while type(v) is PyObj and v.k == 'rd':
        v = v.d[1]
    if type(v) is not PyObj or v.k != 'childout':
        raise Unmodelled('lines of %r' % v)
    c, out = v.d
    finish(c)
    return PyObj('it', [ok(VecV(list(x))) for x in c.out] if out else [])


def nxt(fn, r):
    q = PV(r, 'it')
    return some(q.pop(0)) if q else none()


IT = ' as core::iter::traits::iterator::Iterator>::next'
m('<alloc::io::util::Lines<B>' + IT, '<std::io::Lines<B>' + IT, '<std::env::VarsOs' + IT, "<std::env::SplitPaths<'a>" + IT, "<std::env::SplitPaths<'_>" + IT)(nxt)

m('std::env::vars_os')(lambda fn: PyObj('it', [tup(VecV(list(k)), VecV(list(v))) for k, v in ENV]))


@m('std::env::split_paths')
def _(fn, p):
    return PyObj('it', [VecV(list(x)) for x in txt(p).split(b':')])


@m('std::env::join_paths', needs=[('iter', 0)])
def _(fn, it):
    l = [txt(x) for x in iterate(fn, 0, it)]
    if any(b':' in x for x in l):
        return err(OPAQUE)
    return ok(VecV(list(b':'.join(l))))


m('regex::regex::string::Regex::new')(lambda fn, s: ok(PyObj('regex', txt(s))))
m('regex::regex::string::Regex::is_match')(lambda fn, r, s: re.search(PV(r, 'regex'), txt(s)) is not None)


# threads that wait for a process take a while
def spawn_blocking(fn, f):
    seen = []
    children(f, seen)
    x = masync.fut(lambda: VM.call_value(Ref([f], 0), []))
    if seen:
        x.d.append(seen[0])
    return x


m('async_std::task::spawn_blocking::spawn_blocking')(spawn_blocking)


def pollfut(v, cx):
    if len(v.d) > 1:
        c = v.d[1]
        if c.left > 0:
            c.left -= 1
            waker_of(cx)()
            return pending()
        finish(c)
    return ready(v.d[0]())


masync.pollfut = pollfut

OS = 'std::ffi::os_str::<impl core::convert::AsRef<std::ffi::os_str::OsStr> for '
for _n in (OS + 'alloc::string::String>::as_ref', OS + 'str>::as_ref'):
    if _n not in VM.models:
        m(_n)(lambda fn, x: mfs.mkref(x))
