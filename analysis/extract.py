"""Builds the rustc driver and dumps the type-checked program of /repo as JSON facts.

Facts are cached under /verif/build keyed by a hash of every input the compiler reads from
/repo (sources, manifests, lock file) and of the driver itself, so that a change of the tree
always leads to a fresh extraction.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HCL_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CRATES = {'default': ['hcl-primitives', 'hcl-edit', 'hcl-rs'],
          'perf': ['hcl2json']}
EXPECT = {'default': ['hcl_primitives', 'hcl_edit', 'hcl', 'serde_core', 'harness'],
          'perf': ['hcl_primitives', 'hcl_edit', 'hcl', 'hcl2json']}


def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target', 'node_modules'))
        for n in sorted(names):
            if n.endswith('.rs') or n.endswith('.toml') or n == 'Cargo.lock' or n.endswith('.md'):
                files.append(os.path.join(root, n))
    d = os.path.join(VERIF, 'driver')
    files += [os.path.join(d, 'Cargo.toml'), os.path.join(d, 'src/main.rs')]
    d = os.path.join(VERIF, 'harness')
    files += [os.path.join(d, 'Cargo.toml'), os.path.join(d, 'Cargo.lock')]
    files += sorted(os.path.join(d, 'src', n) for n in os.listdir(os.path.join(d, 'src')) if n.endswith('.rs'))
    for f in files:
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


class ExtractError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def build_driver():
    td = os.path.join(BUILD, 'driver')
    env = dict(os.environ)
    env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    env.pop('RUSTC_WRAPPER', None)
    rc, out = _run(['cargo', '+nightly', 'build', '--offline', '--target-dir', td],
                   cwd=os.path.join(VERIF, 'driver'), env=env)
    if rc != 0:
        raise ExtractError('driver build failed:\n' + out[-4000:])
    return os.path.join(td, 'debug', 'hclfacts')


def facts_dir(config='default'):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = tree_hash()
        out = os.path.join(BUILD, 'facts', h, config)
        if all(os.path.exists(os.path.join(out, c + '.json')) for c in EXPECT[config]):
            return out
        drv = build_driver()
        # keep at most a few cached trees
        base = os.path.join(BUILD, 'facts')
        if os.path.isdir(base):
            old = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base))
            for _, d in old[:-6]:
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
        td = os.path.join(BUILD, 'target-%s-%d' % (config, os.getpid()))
        env = dict(os.environ)
        env.pop('RUSTC_WRAPPER', None)
        env.pop('RUSTFLAGS', None)
        env['LD_LIBRARY_PATH'] = os.path.join(sysroot, 'lib') + ':' + env.get('LD_LIBRARY_PATH', '')
        env['HCLFACTS_OUT'] = out
        env['RUSTC_WORKSPACE_WRAPPER'] = drv
        env['CARGO_INCREMENTAL'] = '0'
        cmd = ['cargo', '+nightly', 'check', '--manifest-path', os.path.join(REPO, 'Cargo.toml')]
        for c in CRATES[config]:
            cmd += ['-p', c]
        cmd += ['--offline', '--locked', '--target-dir', td]
        rc, txt = _run(cmd, env=env, cwd='/')
        if rc == 0 and 'harness' in EXPECT[config]:
            # the one foreign crate whose code is read as well: serde's part of the data model
            env['RUSTC_WRAPPER'] = env.pop('RUSTC_WORKSPACE_WRAPPER')
            env['HCLFACTS_ONLY'] = 'serde_core,harness'
            rc, txt = _run(['cargo', '+nightly', 'check', '--manifest-path', os.path.join(VERIF, 'harness', 'Cargo.toml'),
                            '--offline', '--locked', '--target-dir', td], env=env, cwd='/')
        shutil.rmtree(td, ignore_errors=True)
        missing = [c for c in EXPECT[config] if not os.path.exists(os.path.join(out, c + '.json'))]
        if rc != 0 or missing:
            shutil.rmtree(out, ignore_errors=True)
            raise ExtractError('fact extraction failed (rc=%s, missing=%s):\n%s' % (rc, missing, txt[-6000:]))
        return out


if __name__ == '__main__':
    t = time.time()
    for c in (sys.argv[1:] or ['default']):
        print(facts_dir(c), '%.1fs' % (time.time() - t))
