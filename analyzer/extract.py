"""Builds the MIR dumper and extracts /repo's type-checked program (MIR + types) as JSON.

Everything is rebuilt from /repo's working tree: the extraction is keyed by a
hash of every source/manifest file of /repo and of the dumper itself.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))


class ExtractError(Exception):
    pass


def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('.git', 'target', 'node_modules'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.toml', '.lock')) or f == 'rust-toolchain':
                out.append(os.path.join(d, f))
    return out


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:24]


def run(cmd, env=None, cwd=None, timeout=850):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode:
        raise ExtractError('command failed: %s\n%s' % (' '.join(cmd), r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode()


WRAP = '''#!/bin/bash
R="%s"
for a in "$@"; do case "$a" in -vV|--version|-V|-Vv) "$R" "$@" | sed 's/-nightly//g'; exit 0;; esac; done
if [ "$CARGO_PKG_NAME" = wasm-bindgen ]; then export CARGO_PKG_VERSION=0.2.90 CARGO_PKG_VERSION_PATCH=90; fi
exec "$R" "$@"
'''


def build_driver():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'driver', 'vdump.rs')
    h = tree_hash([src])
    exe = os.path.join(BUILD, 'vdump-' + h)
    if not os.path.exists(exe):
        sysroot = run(['rustc', '+nightly', '--print', 'sysroot']).strip()
        run(['rustc', '+nightly', '--edition', '2021', '-O', src, '-o', exe + '.tmp',
             '-C', 'link-args=-Wl,-rpath,%s/lib' % sysroot])
        os.rename(exe + '.tmp', exe)
    real = run(['rustup', 'which', '--toolchain', 'nightly', 'rustc']).strip()
    wrap = os.path.join(BUILD, 'rustc')
    with open(wrap + '.tmp', 'w') as f:
        f.write(WRAP % real)
    os.chmod(wrap + '.tmp', 0o755)
    os.rename(wrap + '.tmp', wrap)
    return exe, h, wrap


SCOPES = {'dex': ('dex', ['--lib']), 'ws': ('.', ['--workspace'])}


def extract(scope):
    """returns the directory holding <crate>.json of the requested scope"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock.' + scope), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, dh, wrap = build_driver()
        files = repo_files()
        h = tree_hash(files) + '-' + dh
        out = os.path.join(BUILD, 'dump-%s-%s' % (scope, h))
        if os.path.exists(os.path.join(out, 'ok')):
            return out, h, len(files)
        # keep one dump per scope
        for d in os.listdir(BUILD):
            if d.startswith('dump-%s-' % scope):
                shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
        os.makedirs(out)
        sub, args = SCOPES[scope]
        tgt = os.path.join(BUILD, 'target-' + scope)
        # the freshness cache must never hide a crate of the workspace from the dumper
        for base in ('debug/.fingerprint', 'debug/build'):
            b = os.path.join(tgt, base)
            if os.path.isdir(b):
                for d in os.listdir(b):
                    if any(d == p or d.startswith(p + '-') for p in local_crates()):
                        shutil.rmtree(os.path.join(b, d), ignore_errors=True)
        env = dict(os.environ)
        for k in list(env):
            if k.startswith(('CARGO_', 'RUSTC', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN')) and k != 'CARGO_HOME':
                del env[k]
        env.update({'RUSTFLAGS': '-Zalways-encode-mir -Coverflow-checks=off -Cdebug-assertions=off -Awarnings',
                    'CARGO_INCREMENTAL': '0', 'VDUMP_DIR': out, 'RUSTC': wrap,
                    'RUSTC_WORKSPACE_WRAPPER': exe, 'CARGO_TARGET_DIR': tgt, 'CARGO_NET_OFFLINE': 'true'})
        run(['cargo', '+nightly', 'check', '--offline', '--locked'] + args, env=env, cwd=os.path.join(REPO, sub))
        open(os.path.join(out, 'ok'), 'w').close()
        return out, h, len(files)


_lc = None


def local_crates():
    global _lc
    if _lc is None:
        _lc = set()
        for f in repo_files():
            if f.endswith('Cargo.toml'):
                with open(f) as fh:
                    pk = False
                    for line in fh:
                        line = line.strip()
                        if line.startswith('['):
                            pk = line in ('[package]', '[lib]', '[[bin]]')
                        elif pk and line.startswith('name'):
                            n = line.split('=')[1].strip().strip('"')
                            _lc.add(n)
                            _lc.add(n.replace('-', '_'))
    return _lc


if __name__ == '__main__':
    import sys
    for s in (['dex', 'ws'] if sys.argv[1:2] == ['all'] else sys.argv[1:] or ['dex']):
        print(extract(s))
