#!/usr/bin/env python3
"""replay.py FILE - rebuild the real code and re-run the recorded failing case of a VIOLATION."""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/vcg')
import native
r = json.load(open(sys.argv[1])); v = r['concrete']
if not v:
    print('no concrete input recorded; refuted obligations:')
    for o in r['refuted_obligations']: print(' ', o['name'], o.get('detail', ''))
    sys.exit(0)
B = tempfile.mkdtemp(prefix='vp-replay-')
try:
    exe, feats, notes = native.build(B)
    d = B + '/ntarget/debug/'
    native.cargo(B, ['build', '-p', 'image-palette-recoloring-c', '-p', 'image-palette-recoloring-cli'])
    os.makedirs(B + '/tmp')
    env = dict(os.environ, VP_TMP=B + '/tmp', VP_SO=d + 'libimage_palette_recoloring_c.so', VP_CLI=d + 'image-palette-recoloring-cli')
    p = subprocess.run([exe, r['property'], str(v['seed']), '1000', '60', B + '/cur', v['generator'], str(v['index'])], env=env, cwd=B + '/tmp')
    sys.exit(1 if p.returncode else 0)
finally:
    shutil.rmtree(B, ignore_errors=True)
