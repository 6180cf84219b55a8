"""Builds the MIR dump (symbolic side) and the native replay binary from /repo's working tree."""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
HARN = os.path.join(VERIF, 'harness')
BUILD = os.environ.get('ORO_BUILD') or os.path.join(VERIF, 'build')
HOME = os.environ.get('HOME', '/root')
RUSTUP = os.environ.get('RUSTUP_HOME') or os.path.join(HOME, '.rustup')
CARGO = os.environ.get('CARGO_HOME') or os.path.join(HOME, '.cargo')
NIGHTLY = os.path.join(RUSTUP, 'toolchains', 'nightly-x86_64-unknown-linux-gnu')
ENCODE = ("vh oro_package_spec oro_common nassun node_maintainer oro_client oro_config oro_npm_account oro_pretty_json "
          'oro_shim_bin oro_script orogene nom node_semver url percent_encoding idna form_urlencoded ssri hex base64 '
          'futures_util futures_core futures_channel futures_executor futures_task unicase petgraph fixedbitset kdl async_trait serde_json serde async_lock event_listener pathdiff io_tee dunce indexmap reqwest reqwest_middleware reqwest_retry http')


class BuildError(Exception):
    pass


def run(cmd, env=None, cwd=None, log=None, timeout=1500):
    t = time.time()
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    out = p.stdout.decode('utf8', 'replace')
    if log:
        with open(log, 'w') as f:
            f.write(out)
    if p.returncode != 0:
        raise BuildError('%s failed (%d)\n%s' % (' '.join(cmd), p.returncode, out[-6000:]))
    return out, time.time() - t


def filehash(*fns):
    h = hashlib.sha256()
    for f in fns:
        h.update(open(f, 'rb').read())
    return h.hexdigest()[:16]


def driver():
    src = os.path.join(VERIF, 'engine', 'driver', 'main.rs')
    out = os.path.join(BUILD, 'driver-' + filehash(src))
    if not os.path.exists(out):
        env = dict(os.environ, RUSTC_BOOTSTRAP='1')
        env.pop('RUSTUP_TOOLCHAIN', None)
        run([os.path.join(NIGHTLY, 'bin', 'rustc'), '--edition', '2021', '-O', src, '-o', out + '.tmp',
             '-C', 'link-arg=-Wl,-rpath,' + os.path.join(NIGHTLY, 'lib')], env=env)
        os.rename(out + '.tmp', out)
    tp = os.path.join(BUILD, 'timepatch')
    if not os.path.exists(tp):
        s = glob.glob(os.path.join(CARGO, 'registry', 'src', '*', 'time-0.3.29'))[0]
        tmp = tp + '.tmp%d' % os.getpid()
        shutil.copytree(s, tmp)
        f = os.path.join(tmp, 'src', 'format_description', 'parse', 'mod.rs')
        t = open(f).read()
        ls = t.split('\n')
        assert 'let items' in ls[82], ls[82]
        ls[82] = ls[82].replace('let items', 'let items: Box<[_]>')
        open(f, 'w').write('\n'.join(ls))
        os.rename(tmp, tp)
    return out, tp


def common_env(features, target):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN='1.72.1', RUSTFLAGS='--cfg oro_verif', CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true',
               CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0')
    for k in ('RUSTC', 'RUSTC_WRAPPER', 'RUSTC_BOOTSTRAP'):
        env.pop(k, None)
    return env


def write_models(models, prefix, stops, path):
    ls = ['crate:' + s for s in stops]
    for n in sorted(models):
        ls.append(n + '\t' + ','.join('%s:%d' % x for x in models[n][2]))
    for n, m in sorted(prefix, key=lambda t: t[0]):
        ls.append(n + '*\t' + ','.join('%s:%d' % x for x in m[2]))
    t = '\n'.join(ls) + '\n'
    open(path, 'w').write(t)


def dump(features, roots, models, prefix, stops):
    """returns (dump json path, seconds)"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        t0 = time.time()
        drv, tp = driver()
        tag = '-'.join(sorted(features))
        mf = os.path.join(BUILD, 'models-%s.txt' % tag)
        if 'net' in features:
            stops = [x for x in stops if x != 'reqwest']
        write_models(models, prefix, stops, mf)
        out = os.path.join(BUILD, 'dump-%s.json' % tag)
        if os.path.exists(out):
            os.unlink(out)
        target = os.path.join(BUILD, 'mir-' + os.path.basename(drv)[7:] + '-' + hashlib.sha256(ENCODE.encode()).hexdigest()[:6])
        env = common_env(features, target)
        env.update(RUSTC=os.path.join(VERIF, 'engine', 'wrap', 'rustc'), ORO_NIGHTLY=NIGHTLY, ORO_SYSROOT=NIGHTLY, ORO_DRIVER=drv,
                   ORO_TIMEPATCH=tp, ORO_ENCODE=ENCODE, ORO_OUT=out, ORO_MODELS=mf, ORO_ROOTS=','.join(roots))
        # force the harness crate itself to be re-dumped
        for f in glob.glob(os.path.join(target, 'debug', '.fingerprint', 'vh-*')):
            shutil.rmtree(f)
        run(['cargo', 'check', '--lib', '--offline', '--locked', '--no-default-features', '--features', ','.join(features)], env=env, cwd=HARN,
            log=os.path.join(BUILD, 'dump-%s.log' % tag))
        if not os.path.exists(out):
            raise BuildError('no dump produced; see log')
        # private copy so a later dump does not disturb this run
        priv = out + '.%d' % os.getpid()
        shutil.copy(out, priv)
        return priv, time.time() - t0
    finally:
        lock.close()


def native(features):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.nlock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        target = os.path.join(BUILD, 'native')
        env = common_env(features, target)
        run(['cargo', 'build', '--bin', 'vhreplay', '--offline', '--locked', '--no-default-features', '--features', ','.join(features)], env=env, cwd=HARN,
            log=os.path.join(BUILD, 'native.log'))
        tag = '-'.join(sorted(features))
        out = os.path.join(BUILD, 'vhreplay-' + tag)
        shutil.copy(os.path.join(target, 'debug', 'vhreplay'), out + '.tmp')
        os.rename(out + '.tmp', out)
        return out
    finally:
        lock.close()
