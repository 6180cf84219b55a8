"""Runs the native build of a harness on concrete inputs, as an unprivileged user inside a scratch directory."""
import os
import shutil
import subprocess
import tempfile

UID = 65534
_bins = {}


def drop():
    os.setgroups([])
    os.setgid(UID)
    os.setuid(UID)
    os.umask(0o22)


def make_scratch():
    top = tempfile.mkdtemp(prefix='vh-', dir='/tmp')
    d = os.path.join(top, 'a', 'b', 'c', 'd')
    os.makedirs(d)
    for x in (top, os.path.join(top, 'a'), os.path.join(top, 'a', 'b'), os.path.join(top, 'a', 'b', 'c'), d):
        os.chmod(x, 0o755)
        if os.getuid() == 0:
            os.chown(x, UID, UID)
    return top, d


def visible(path):
    """can the unprivileged user execute it"""
    p = path
    while p != '/':
        if not os.stat(p).st_mode & 0o001:
            return False
        p = os.path.dirname(p)
    return True


def run(nat, root, inp, timeout=10):
    """outcome of the native build on the inputs: (fails, obs, verdict)"""
    top, d = make_scratch()
    try:
        exe = nat
        if not visible(nat):
            exe = os.path.join(top, 'vhreplay')
            shutil.copy(nat, exe)
            os.chmod(exe, 0o755)
        env = dict(PATH='/usr/local/bin:/usr/bin:/bin', HOME=d, VH_SCRATCH=d, LANG='C.UTF-8')
        try:
            p = subprocess.run([exe, root, ','.join(map(str, inp))], capture_output=True, text=True, errors='replace', timeout=timeout, cwd=d, env=env,
                               stdin=subprocess.DEVNULL, preexec_fn=drop if os.getuid() == 0 else None)
        except subprocess.TimeoutExpired:
            return ['timeout: native run does not terminate'], [], 'TIMEOUT'
    finally:
        shutil.rmtree(top, ignore_errors=True)
    fails, obs = [], []
    last = ''
    for l in p.stdout.split('\n'):
        if l.startswith('FAIL '):
            fails.append(l[5:])
        elif l.startswith('OBS '):
            q = l.split(' ')
            obs.append((q[1], q[2] if len(q) > 2 else ''))
        if l:
            last = l
    if p.returncode not in (0,) and not fails:
        fails.append('panic: native process died with status %d %s' % (p.returncode, p.stderr[-200:].replace('\n', ' ')))
    return fails, obs, last
