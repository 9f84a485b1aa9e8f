"""Mechanical extraction of the real sources into a scratch cargo workspace, plus access shims,
used (a) to replay candidate counterexamples on the real code and (b) for the labelled bounded
stand-ins.  What the extraction changes: each crate directory is copied verbatim; a child module
(`/verif/native/shims/*.rs`) is appended behind a cargo feature to the file that defines the
private item it exposes; nothing else in the copied files is edited."""
import os, re, shutil, subprocess, json, time, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
# shim -> (crate dir, regex of the definition that must be in the same module)
SHIMS = {
    'w': ('image-palette-recoloring', r'pub struct ImageWeights\b'),
    'iw': ('image-palette-recoloring', r'pub struct ImageWeights\b'),
    'd': ('image-palette-recoloring', r'pub struct DecomposedImage\b'),
    'dm': ('image-palette-recoloring', r'pub struct DecomposedImage\b'),
    'err': ('image-palette-recoloring', r'\bfn compute_pixel_error\b'),
    'edge': ('image-palette-recoloring', r'\bfn locate_edge_to_collapse\b'),
    'star': ('image-palette-recoloring', r'\bfn compute_star_triangulation_coordinates\b'),
    'tri': ('image-palette-recoloring', r'\bfn triangle_closest_point\b'),
    'lift': ('qhull-rs', r'\bfn lift_point\b'),
    'cli': ('image-palette-recoloring-cli', r'\bfn parse_color_list\b'),
}
CRATES = ['qhull-sys', 'qhull-rs', 'image-palette-recoloring', 'image-palette-recoloring-c',
          'image-palette-recoloring-cli']

def env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
             CARGO_TERM_COLOR='never')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in ('RUSTC_WRAPPER', 'RUSTFLAGS', 'CARGO_TARGET_DIR'):
        e.pop(k, None)
    return e

def prepare(B):
    N = os.path.join(B, 'native')
    shutil.rmtree(N, ignore_errors=True)
    os.makedirs(N)
    for c in CRATES:
        shutil.copytree(os.path.join(REPO, c), os.path.join(N, c), symlinks=True,
                        ignore=shutil.ignore_patterns('target', '.git', 'benches', 'examples'))
    # benches/examples are declared in Cargo.toml: drop the declarations with the files
    p = os.path.join(N, 'qhull-rs/Cargo.toml')
    s = open(p).read()
    s = re.sub(r'\[\[bench\]\][^\[]*', '', s)
    s = re.sub(r'\[dev-dependencies\][^\[]*', '', s)
    open(p, 'w').write(s)
    feats = {c: [] for c in CRATES}
    for k, (c, rx) in SHIMS.items():
        hits = [f for f in sorted(glob.glob(os.path.join(N, c, 'src/**/*.rs'), recursive=True))
                if re.search(rx, open(f).read())]
        if not hits:
            continue
        with open(hits[0], 'a') as f:
            f.write('\n#[cfg(feature = "vp_%s")] #[path = "%s/native/shims/%s.rs"] mod vp_%s;\n' % (k, VERIF, k, k))
        feats[c].append('vp_' + k)
    for c, fs in feats.items():
        if fs:
            p = os.path.join(N, c, 'Cargo.toml')
            s = open(p).read()
            if '[features]' in s:
                s = s.replace('[features]', '[features]\n' + '\n'.join('%s = []' % x for x in fs), 1)
            else:
                s += '\n[features]\n' + '\n'.join('%s = []' % x for x in fs) + '\n'
            open(p, 'w').write(s)
    # CLI sources as a library too, so that its parser can be called
    cli = os.path.join(N, 'image-palette-recoloring-cli')
    p = os.path.join(cli, 'Cargo.toml')
    s = open(p).read()
    s += '\n[lib]\nname = "vp_cli_lib"\npath = "src/main.rs"\ncrate-type = ["rlib"]\n'
    open(p, 'w').write(s)
    H = os.path.join(N, 'harness')
    shutil.copytree(os.path.join(VERIF, 'native/src'), os.path.join(H, 'src'))
    allf = [x for fs in feats.values() for x in fs]
    dep = {c: '' for c in CRATES}
    with open(os.path.join(H, 'Cargo.toml'), 'w') as f:
        f.write('''[package]
name = "vpnative"
version = "0.0.0"
edition = "2021"
[dependencies]
image = "0.24"
nalgebra = "0.32"
nalgebra-sparse = "0.9"
libc = "0.2"
qhull-rs = { path = "../qhull-rs" }
image-palette-recoloring = { path = "../image-palette-recoloring" }
image-palette-recoloring-cli = { path = "../image-palette-recoloring-cli", optional = true }
[features]
''')
        for c, fs in feats.items():
            for x in fs:
                if c.endswith('cli'):
                    f.write('%s = ["dep:image-palette-recoloring-cli", "image-palette-recoloring-cli/%s"]\n' % (x, x))
                else:
                    f.write('%s = ["%s/%s"]\n' % (x, c, x))
        for k in SHIMS:
            if 'vp_' + k not in allf:
                f.write('vp_%s = []\n' % k)
    with open(os.path.join(N, 'Cargo.toml'), 'w') as f:
        f.write('[workspace]\nresolver = "2"\nmembers = [%s]\n' % ', '.join('"%s"' % c for c in CRATES + ['harness']))
        f.write('[profile.dev]\nopt-level = 1\ndebug = false\noverflow-checks = true\ndebug-assertions = true\n'
                '[profile.dev.package."*"]\nopt-level = 1\ndebug-assertions = false\noverflow-checks = false\n'
                '[profile.dev.package.qhull-rs]\nopt-level = 1\ndebug-assertions = true\noverflow-checks = true\n'
                '[profile.dev.package.image-palette-recoloring]\nopt-level = 1\ndebug-assertions = true\noverflow-checks = true\n')
    shutil.copy(os.path.join(REPO, 'Cargo.lock'), os.path.join(N, 'Cargo.lock'))
    os.chmod(os.path.join(N, 'Cargo.lock'), 0o644)
    return allf

def cargo(B, args, timeout=600):
    N = os.path.join(B, 'native')
    return subprocess.run(['cargo'] + args + ['--offline', '--manifest-path', N + '/Cargo.toml', '--target-dir', B + '/ntarget'],
                          env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)

def build(B, want=None, log=None):
    """Build the harness with as many shims as compile.  Returns (path, features, notes)."""
    notes = []
    feats = prepare(B)
    if want is not None:
        feats = [f for f in feats if f in want]
    exe = os.path.join(B, 'ntarget/debug/vpnative')
    r = cargo(B, ['build', '-p', 'vpnative', '--features', ','.join(feats)])
    if r.returncode == 0:
        return exe, feats, notes
    out = r.stdout
    ok = []
    for f in feats:
        r = cargo(B, ['build', '-p', 'vpnative', '--features', f])
        if r.returncode == 0:
            ok.append(f)
        else:
            notes.append('access shim %s does not compile against this tree' % f)
    r = cargo(B, ['build', '-p', 'vpnative', '--features', ','.join(ok)])
    if r.returncode == 0:
        return exe, ok, notes
    notes.append('native harness does not build: ' + r.stdout[-2000:])
    return None, [], notes
