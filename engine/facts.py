"""Extract MIR facts of the four workspace crates from /repo's working tree."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
MEMBERS = ['common', 'account_storage', 'accounts_on_demand', 'token_account_storage']
CRATES = 'lite_account_manager_common,lite_account_storage,lite_token_account_storage,lite_accounts_on_demand'
NEED = set(CRATES.split(','))

def tree_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'Cargo.lock')]
    for m in MEMBERS:
        for d, dn, fn in os.walk(os.path.join(REPO, m)):
            dn.sort()
            files += [os.path.join(d, f) for f in sorted(fn)]
    for d, dn, fn in os.walk(os.path.join(VERIF, 'driver')):
        if 'target' in dn: dn.remove('target')
        files += [os.path.join(d, f) for f in sorted(fn)]
    for f in files:
        if not os.path.isfile(f): continue
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()[:20]

def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def base_env():
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTFLAGS', 'RUSTC', 'CARGO_TARGET_DIR', 'RUSTUP_TOOLCHAIN'): e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    return e

class BuildError(Exception): pass

def build_driver():
    e = base_env(); e['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver')
    rc, out = sh(['cargo', '+nightly', 'build', '--offline', '-q'], e, os.path.join(VERIF, 'driver'))
    p = os.path.join(BUILD, 'driver', 'debug', 'mirfacts')
    if rc or not os.path.exists(p): raise BuildError('driver build failed\n' + out[-4000:])
    return p

def extract(out):
    drv = build_driver()
    ws = os.path.join(BUILD, 'ws')
    shutil.rmtree(ws, ignore_errors=True); os.makedirs(ws)
    for m in MEMBERS: os.symlink(os.path.join(REPO, m), os.path.join(ws, m))
    s = open(os.path.join(REPO, 'Cargo.toml')).read()
    open(os.path.join(ws, 'Cargo.toml'), 'w').write(re.sub(r'"simulate_from_snapshot",?', '', s))
    shutil.copy(os.path.join(REPO, 'Cargo.lock'), os.path.join(ws, 'Cargo.lock'))
    empty = os.path.join(BUILD, 'empty.rs'); open(empty, 'w').close()
    tgt = os.path.join(BUILD, 'target')
    fp = os.path.join(tgt, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('lite-'): shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    tmp = out + '.tmp'
    shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    e = base_env()
    nightly = subprocess.check_output(['rustup', 'which', 'rustc', '--toolchain', 'nightly'], env=e, text=True).strip()
    sysroot = subprocess.check_output([nightly, '--print', 'sysroot'], env=e, text=True).strip()
    e.update(LD_LIBRARY_PATH=sysroot + '/lib', MIRFACTS_EMPTY=empty, MIRFACTS_OUT=tmp, MIRFACTS_CRATES=CRATES, RUSTC=nightly,
             RUSTUP_TOOLCHAIN='1.76.0', CARGO_TARGET_DIR=tgt, RUSTC_WRAPPER=drv, CARGO_INCREMENTAL='0')
    rc, log = sh(['cargo', 'check', '--workspace', '--offline'], e, ws)
    got = {f[:-5] for f in os.listdir(tmp) if f.endswith('.json')}
    if rc or got != NEED:
        raise BuildError('fact extraction failed (rc %s, crates %s)\n%s' % (rc, sorted(got), log[-4000:]))
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)

def ensure():
    os.makedirs(BUILD, exist_ok=True)
    h = tree_hash()
    root = os.path.join(BUILD, 'facts'); os.makedirs(root, exist_ok=True)
    out = os.path.join(root, h)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.isdir(out):
            for d in sorted(os.listdir(root), key=lambda d: os.path.getmtime(os.path.join(root, d)))[:-8]:
                shutil.rmtree(os.path.join(root, d), ignore_errors=True)
            extract(out)
    return out

if __name__ == '__main__':
    t = time.time(); print(ensure(), '%.1fs' % (time.time() - t))
