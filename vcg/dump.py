"""MIR of the current tree as JSON, through the rustc_public driver in /verif/driver (a RUSTC_WRAPPER)."""
import os, shutil, subprocess, glob, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')

def run(cmd, env=None, cwd=None, timeout=600):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout

def dump(B):
    """Returns ({crate: path of json}, error or None)."""
    env = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR'):
        env.pop(k, None)
    env.update(HOME='/root', PATH='/root/.cargo/bin:' + env.get('PATH', '/usr/bin:/bin'), RUSTUP_TOOLCHAIN='nightly',
               CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never')
    drv, T, D = B + '/vpdriver', B + '/dtarget', B + '/dump'
    os.makedirs(T, exist_ok=True); os.makedirs(D, exist_ok=True)
    rc, out = run(['rustc', '-O', VERIF + '/driver/main.rs', '-o', drv, '--edition', '2021'], env)
    if rc:
        return {}, 'MIR exporter does not build: ' + out[-1500:]
    rc, sysroot = run(['rustc', '--print', 'sysroot'], env)
    env.update(LD_LIBRARY_PATH=sysroot.strip() + '/lib', RUSTC_WRAPPER=drv,
               RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums -Awarnings -Zallow-features=',
               VP_DUMP_CRATES='vp_roots,image_palette_recoloring_c,image_palette_recoloring_cli', VP_DUMP_DIR=D,
               VP_WORKSPACE_CRATES='vp_roots,image_palette_recoloring_c,image_palette_recoloring_cli,image_palette_recoloring,qhull_rs,qhull_sys')
    # the sources as they are, copied verbatim, so that cargo leaves /repo alone
    S = B + '/src'
    shutil.rmtree(S, ignore_errors=True)
    def ign(d, names):
        return [n for n in names if n in ('target', '.git') or (n == 'node_modules')]
    shutil.copytree(REPO, S, symlinks=True, ignore=ign)
    R = B + '/roots'
    shutil.rmtree(R, ignore_errors=True)
    shutil.copytree(VERIF + '/roots', R)
    p = R + '/Cargo.toml'
    t = open(p).read().replace('/repo/', S + '/')
    open(p, 'w').write(t)
    lock = S + '/Cargo.lock'
    if os.path.exists(lock):
        shutil.copy(lock, R + '/Cargo.lock'); os.chmod(R + '/Cargo.lock', 0o644); os.chmod(lock, 0o644)
    errs = []
    for args in (['--manifest-path', p], ['--manifest-path', S + '/Cargo.toml', '-p', 'image-palette-recoloring-c', '-p', 'image-palette-recoloring-cli']):
        rc, out = run(['cargo', 'check', '--offline', '--target-dir', T] + args, env)
        if rc:
            errs.append(out[-1500:])
    res = {}
    for f in glob.glob(D + '/*.json'):
        res[os.path.basename(f)[:-5]] = f
    return res, ('\n'.join(errs) or None)
