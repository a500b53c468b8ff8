"""Mechanical extraction: ask the compiler for the MIR of the current working tree."""
import os
import subprocess
import hashlib
import fcntl

REPO = os.environ.get('SMD_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')
TARGET = os.path.join(BUILD, 'mir-target')
FLAGS = ['-Zunpretty=mir', '-Zmir-opt-level=0', '-Ztrim-diagnostic-paths=no', '-Cpanic=abort']
CRATES = {
    'gfm': (['-p', 'gfm', '--lib'], 'gfm/src'),
}


class BuildError(Exception):
    pass


def command(which):
    return ['cargo', '+nightly', 'rustc', '--offline'] + CRATES[which][0] + ['--'] + FLAGS


def seed(target, repo=None):
    """reuse the dependencies which the repository's own build left behind (cargo rebuilds them where they do not fit)"""
    src = os.path.join(repo or REPO, 'target', 'debug', 'build')
    if os.path.isdir(src) and not os.path.exists(os.path.join(target, 'debug')):
        os.makedirs(os.path.join(target, 'debug'))
        subprocess.run(['cp', '-a', src, os.path.join(target, 'debug') + '/'], check=False)


def cargo_env(target):
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    env.update(CARGO_TARGET_DIR=target, CARGO_INCREMENTAL='0', RUSTUP_TOOLCHAIN='nightly', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
               CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_PROFILE_DEV_PANIC='unwind')
    return env


MEMO = {}


def bundle(repo=None):
    """build the smd program as it is and print the MIR of its crates in the same compilation -> {crate: MIR text, 'bin': program}"""
    repo = repo or REPO
    if repo in MEMO:
        return MEMO[repo]
    os.makedirs(BUILD, exist_ok=True)
    tag = '' if repo == '/repo' else '-' + hashlib.sha1(repo.encode()).hexdigest()[:8]
    target = TARGET + tag
    env = cargo_env(target)
    dump = os.path.join(target, 'dump')
    env.update(MIRDUMP_DIR=dump, RUSTC_WORKSPACE_WRAPPER=os.path.join(HERE, 'vc', 'dump.sh'))
    with open(os.path.join(BUILD, 'lock' + tag), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        seed(target, repo)
        subprocess.run(['rm', '-rf', dump])
        os.makedirs(dump)
        # cargo runs rustc only for what is out of date, so make everything of the workspace out of date
        subprocess.run(['cargo', 'clean', '--offline', '-p', 'smd', '-p', 'smd-core', '-p', 'gfm'], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(['cargo', 'build', '--offline', '-p', 'smd'], cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise BuildError('cargo build -p smd\n' + p.stderr[-4000:])
        out = {}
        for k, n in (('gfm', 'gfm'), ('core', 'smd_core'), ('smd', 'smd'), ('main', 'main')):
            f = os.path.join(dump, n + '.mir')
            if not os.path.exists(f):
                raise BuildError('no MIR of ' + n)
            with open(f) as fh:
                out[k] = fh.read()
    out['bin'] = os.path.join(target, 'debug', 'smd')
    MEMO[repo] = out
    return out


def extract(which, repo=None):
    if which != 'gfm':
        return bundle(repo)[which]
    return extract_one(which, repo)


def extract_one(which, repo=None):
    """-> MIR text of one crate, straight from rustc, on the current tree"""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    tag = '' if repo == '/repo' else '-' + hashlib.sha1(repo.encode()).hexdigest()[:8]
    env = cargo_env(TARGET + tag)
    with open(os.path.join(BUILD, 'lock' + tag), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        seed(TARGET + tag, repo)
        # cargo prints the MIR only when it runs rustc, so make sure that it does
        flags = command(which) + ['--cfg', 'mirdump_%s' % os.urandom(4).hex()]
        p = subprocess.run(flags, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0 or 'fn ' not in p.stdout:
        raise BuildError('%s\n%s' % (' '.join(flags), p.stderr[-4000:]))
    return p.stdout


if __name__ == '__main__':
    import sys
    for w in sys.argv[1:]:
        t = extract(w)
        open(os.path.join(BUILD, w + '.mir'), 'w').write(t)
        print(w, len(t))
