#!/usr/bin/env python3
"""check.py ID [quick|thorough] - decide one property of /repo's current tree.

1. deductive part: export the MIR of the real code (driver/), generate the proof obligations of the
   contracts in contracts/<id>.py from it and let the SMT back ends decide them (prove.py);
2. bounded part: the same postconditions evaluated on the real, natively built code (native/), as
   replay for refuted obligations and as the labelled bounded stand-in for functions out of reach.

exit 0: nothing violated; exit 1 + VIOLATION line: a postcondition fails on a concrete input, or an
obligation is refuted by the back end."""
import json, os, shutil, signal, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + '/vcg')
import dump as dumper, native

T0 = time.time()
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
NATIVE = pid != 'C21'
#            scale, limit_s
SCALE = {'quick': (12.0, 55.0), 'thorough': (40.0, 420.0)}[tier]
PROVE_LIMIT = {'quick': 420, 'thorough': 700}[tier]

def known():
    out = []
    try:
        for l in open(VERIF + '/KNOWN_FINDINGS.txt'):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                out.append(l[len('finding: '):])
    except OSError:
        pass
    return out

def main():
    B = tempfile.mkdtemp(prefix='vp-%s-' % pid)
    try:
        return work(B)
    finally:
        shutil.rmtree(B, ignore_errors=True)

def prove(B, res):
    t = time.time()
    try:
        crates, err = dumper.dump(B)
        if err:
            res['notes'].append('MIR export: ' + err[-600:])
        res['dump_s'] = round(time.time() - t, 1)
        out = B + '/prove.json'
        p = subprocess.run(['python3-vt', VERIF + '/vcg/prove.py', pid, B, out, tier, str(seed)], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=PROVE_LIMIT)
        res['log'] = p.stdout[-20000:]
        if os.path.exists(out):
            res.update(json.load(open(out)))
        else:
            res['notes'].append('prover stopped: ' + p.stdout[-1500:])
    except subprocess.TimeoutExpired:
        out = B + '/prove.json'
        if os.path.exists(out):
            res.update(json.load(open(out)))
        res['notes'].append('prover time limit')
    except Exception as e:
        res['notes'].append('prover: %r' % e)
    res['prove_s'] = round(time.time() - t, 1)

def build(B, res):
    try:
        exe, feats, notes = native.build(B)
        res.update(exe=exe, feats=feats)
        res['notes'] += notes
        if pid in ('C17', 'C18', 'C19'):
            r = native.cargo(B, ['build', '-p', 'image-palette-recoloring-c', '-p', 'image-palette-recoloring-cli'])
            if r.returncode == 0:
                d = B + '/ntarget/debug/'
                res['env'] = {'VP_SO': d + 'libimage_palette_recoloring_c.so', 'VP_CLI': d + 'image-palette-recoloring-cli'}
            else:
                res['notes'].append('C library / tool do not build: ' + r.stdout[-600:])
    except Exception as e:
        res['notes'].append('native build: %r' % e)

def run_native(B, b, scale, limit, sd, only=None):
    """-> (kind, data): ok / violation / crash / hang / none"""
    cur = B + '/cur'
    env = dict(os.environ, VP_TMP=B + '/tmp', **b.get('env', {}))
    os.makedirs(B + '/tmp', exist_ok=True)
    if os.path.exists(cur):
        os.unlink(cur)
    cmd = [b['exe'], pid, str(sd), str(scale), str(limit), cur] + ([only[0], str(only[1])] if only else [])
    try:
        p = subprocess.run(cmd, env=env, cwd=B + '/tmp', stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit + 90)
    except subprocess.TimeoutExpired:
        return 'hang', (open(cur).read().split() if os.path.exists(cur) else None)
    lines = p.stdout.decode('utf8', 'replace').strip().splitlines()
    if p.returncode == 0 and lines:
        return 'ok', json.loads(lines[-1])
    if p.returncode == 3 and lines:
        return 'violation', json.loads(lines[-1])
    return 'crash', (open(cur).read().split() if os.path.exists(cur) else None, p.returncode, p.stderr.decode('utf8', 'replace')[-1500:])

def settle(B, b, r, scale, sd):
    """Turn a native outcome into a violation record or None; crashes and hangs must repeat on their own."""
    k, d = r
    if k == 'violation':
        return d
    if k == 'hang' and d:
        k2, d2 = run_native(B, b, scale, 30, sd, (d[0], d[1]))
        if k2 == 'hang':
            return {'violation': 'the code does not finish (stopped after 120 s)', 'generator': d[0], 'index': int(d[1]), 'seed': sd, 'input': 'as generated'}
        return settle(B, b, (k2, d2), scale, sd) if k2 != 'ok' else None
    if k == 'crash' and d[0]:
        k2, d2 = run_native(B, b, scale, 30, sd, (d[0][0], d[0][1]))
        if k2 == 'crash':
            return {'violation': 'the process is ended by the code (exit status %s): %s' % (d[1], d[2][-300:]), 'generator': d[0][0], 'index': int(d[0][1]), 'seed': sd, 'input': 'as generated'}
        if k2 == 'violation':
            return d2
    return None

def work(B):
    pr = {'obligations': [], 'notes': [], 'assumptions': [], 'trusted': [], 'functions': []}
    nb = {'exe': None, 'feats': [], 'notes': []}
    has_contract = os.path.exists('%s/contracts/%s.py' % (VERIF, pid.lower()))
    ths = []
    if has_contract:
        ths.append(threading.Thread(target=prove, args=(B, pr)))
    nat, viol = None, None
    def nat_all():
        nonlocal nat, viol
        build(B, nb)
        if nb['exe']:
            r = run_native(B, nb, SCALE[0], SCALE[1], seed)
            if r[0] == 'ok':
                nat = r[1]
            else:
                viol = settle(B, nb, r, SCALE[0], seed)
                if viol is None:
                    nb['notes'].append('native run ended with %s, not repeatable: %r' % (r[0], r[1]))
                    r = run_native(B, nb, SCALE[0] / 2, SCALE[1], seed + 1)
                    if r[0] == 'ok':
                        nat = r[1]
                    else:
                        viol = settle(B, nb, r, SCALE[0], seed + 1)
    if NATIVE:
        ths.append(threading.Thread(target=nat_all))
    for t in ths: t.start()
    for t in ths: t.join()
    obs = pr['obligations']
    refuted = [o for o in obs if o['status'] == 'refuted']
    undec = [o for o in obs if o['status'] == 'undecided']
    done = [o for o in obs if o['status'] == 'discharged']
    if (refuted or undec) and viol is None and nb['exe']:
        # look longer for a concrete input before reporting a refuted obligation alone, and where an obligation stays open
        for sd in range(seed + 101, seed + 104):
            if time.time() - T0 > 500: break
            r = run_native(B, nb, SCALE[0] * 6, 70, sd)
            viol = settle(B, nb, r, SCALE[0] * 6, sd) if r[0] != 'ok' else None
            if viol: break
    nviol = (1 if (viol or refuted) else 0)
    rep = None
    if nviol:
        os.makedirs(VERIF + '/evidence/replay', exist_ok=True)
        rep = '%s/evidence/replay/%s.json' % (VERIF, pid)
        json.dump({'property': pid, 'concrete': viol, 'refuted_obligations': refuted,
                   'replay': ('python3 %s/replay.py %s' % (VERIF, rep)) if viol else None}, open(rep, 'w'), indent=1)
    evidence(pr, nb, nat, obs, done, undec, refuted, viol, nviol, has_contract)
    for n in pr['notes'] + nb['notes']:
        print('note:', n.strip().replace('\n', ' ')[-700:])
    print('%s %s: %d obligations, %d discharged, %d undecided, %d refuted; native %s; %.0f s' % (
        pid, tier, len(obs), len(done), len(undec), len(refuted),
        ('%d cases, %d checks' % (nat['cases'], nat['checks'])) if nat else ('VIOLATED' if viol else 'none'), time.time() - T0))
    for o in refuted: print('refuted:', o['name'], '-', o.get('detail', '')[:400])
    for o in undec: print('undecided:', o['name'], '-', o.get('detail', '')[:300])
    for k in known(): print('KNOWN-FINDING: ' + k)
    if viol:
        print('concrete: %s' % viol['violation'][:600])
        print('VIOLATION property=%s replay=%s' % (pid, rep)); return 1
    if refuted:
        concrete = any(o.get('concrete') for o in refuted)
        print('VIOLATION property=%s replay=%s%s' % (pid, rep, '' if concrete else ' no-failing-input-found')); return 1
    if not nat and not done:
        print('nothing could be checked on this tree'); return 2
    return 0

def evidence(pr, nb, nat, obs, done, undec, refuted, viol, nviol, has_contract):
    man = json.load(open(VERIF + '/MANIFEST.json'))
    level = [c['level'] for c in man['checks'] if c['property'] == pid][0]
    backs = {}
    for o in done:
        backs[o.get('backend', '?')] = backs.get(o.get('backend', '?'), 0) + 1
    cov = {
        'obligations': len(obs), 'discharged': len(done), 'undecided': len(undec), 'refuted': len(refuted),
        'discharged_by_back_end': backs,
        'solver_s': round(sum(o.get('time', 0) for o in obs), 2),
        'checker_cmd': 'python3-vt vcg/prove.py %s <scratch dir with the MIR export> <out.json> (run by check.py %s)' % (pid, pid),
        'trusted_base': pr['trusted'] or ['none: no deductive part for this property'],
        'functions_under_contract': pr['functions'],
        'vacuity_checks': pr.get('vacuity', 0),
        'obligation_list': [{k: o[k] for k in ('name', 'fn', 'status', 'backend', 'time') if k in o} for o in obs],
        'prove_wall_s': pr.get('prove_s', 0), 'mir_export_s': pr.get('dump_s', 0),
    }
    if nat:
        cov.update(bounded_evaluations=nat['cases'], bounded_postcondition_checks=nat['checks'],
                   evaluations=nat['cases'], distinct_nontrivial=nat['distinct'],
                   rule='bounded stand-in and replay on the natively built real code: seeded generators of native/src (listed per generator); a case counts when at least one postcondition was evaluated on it and its input differs from all earlier ones',
                   generators=nat['generators'], samples=nat['samples'][:6], access_shims=nb['feats'])
    cov['explanation'] = pr.get('explanation', '') or 'bounded evaluation of the contract on the real code'
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': pr['assumptions'] + ['undecided here, covered only by the bounded stand-in: ' + o['name'] for o in undec] + [n[-300:] for n in pr['notes'] + nb['notes']],
          'wall_s': round(time.time() - T0, 1), 'violations': nviol}
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, pid), 'w'), indent=1)

sys.exit(main())
