"""Shared helpers of the contract files."""
import multiprocessing, os, re, signal, sys, time
import z3
from fractions import Fraction
import engine, values, models, nalg, loops, strs
from engine import Engine, Program, State, Obl, Fact, Unsupported, Ctx
from values import *
from models import deref
R = z3.RealSort(); I = z3.IntSort(); B = z3.BoolSort()

NPROC = int(os.environ.get('VP_CORES', '8'))
MODEL_NOTES = {
    'Matrix': 'nalgebra matrix operations (element-wise arithmetic, products, views, from_iterator)',
    'LU': "nalgebra's LU inverse (a successful inverse is a two-sided inverse)",
    'Iterator': 'core iterator adaptors', 'Vec': 'alloc::vec::Vec', 'slice': 'core slices', 'HashMap': 'std::collections::HashMap',
    'ImageBuffer': 'image::ImageBuffer (row-major pixel store)', 'GenericImageView': 'image::GenericImageView::pixels is row-major',
    'f64': 'f64 intrinsics', 'CooMatrix': 'nalgebra-sparse COO to CSR conversion and product'}

def prog(P, crate='vp_roots'):
    return Program('%s/dump/%s.json' % (P.B, crate))
def body(p, pat):
    """the function whose stable identity matches pat"""
    bs = [b for b in p.B.values() if b['crate'] in p.ws and re.search(pat, p.body_id(b))]
    if not bs: raise Unsupported('no function matches ' + pat)
    return bs
def body1(p, pat, pick=None):
    bs = body(p, pat)
    if pick: bs = [b for b in bs if pick(b)]
    if len(bs) != 1: raise Unsupported(f'{len(bs)} functions match {pat}')
    return bs[0]
def args_of(eng, st, b, names=None):
    """arbitrary arguments"""
    out = []
    for i in range(1, b['argc'] + 1):
        t = b['locals'][i]; t = t[0] if isinstance(t, list) else t
        out.append(eng.symbolic(st, t, (names or {}).get(i, f'arg{i}')))
    return out
def rty(b):
    t = b['locals'][0]; return t[0] if isinstance(t, list) else t
def lty(b, i):
    t = b['locals'][i]; return t[0] if isinstance(t, list) else t

class Limit(Exception): pass
def hypotheses_clash(eng, o):
    """vacuity guard: do the hypotheses of a proved postcondition contradict each other?"""
    if o.facts and eng.matched(o.forms, o.facts, 700): return True
    s = z3.Solver(); s.set('timeout', 700); s.add(*eng.instantiate([Z(f) for f in o.forms], o.facts, 1))
    return s.check() == z3.unsat
def _work(k):
    eng, obs, timeout = _JOB
    o = obs[k]
    t = time.time()
    try:
        st = eng.discharge(o, timeout)
        mod = None
        empty = False
        if o.status == 'proved' and o.kind == 'post' and o.forms: empty = hypotheses_clash(eng, o)
        if o.status == 'refuted' and o.model is not None:
            mod = {str(d): str(o.model[d])[:60] for d in list(o.model.decls())[:40] if d.arity() == 0}
        return k, o.status, getattr(o, 'backend', 'trivial'), time.time() - t, (mod, empty)
    except Exception as ex:
        return k, 'unknown', 'error ' + repr(ex)[:100], time.time() - t, (None, False)
def discharge(P, eng, fn, timeout=20000, prefix=''):
    """decide every obligation generated so far (in parallel) and record them under function fn"""
    global _JOB
    obs = eng.obls; eng.obls = []
    _JOB = (eng, obs, timeout)
    todo = [k for k, o in enumerate(obs) if o.status is None]
    res = {}
    if todo:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(NPROC, len(todo))) as pool:
            for k, s, be, t, mod in pool.imap_unordered(_work, todo, chunksize=1): res[k] = (s, be, t, mod)
    seen = {}
    worst = 'proved'
    for k, o in enumerate(obs):
        s, be, t, (mod, empty) = res.get(k, ('proved', 'structural', 0.0, (None, False)))
        n = prefix + o.name
        seen[n] = seen.get(n, 0) + 1
        nm = n if seen[n] == 1 else f'{n} (path {seen[n]})'
        status = {'proved': 'discharged', 'refuted': 'refuted'}.get(s, 'undecided')
        if status == 'refuted' and o.kind in ('termination', 'form'): status = 'undecided'     # this variant does not do, another may; the sum may be written otherwise
        P.ob(nm, fn, status, be, t, '' if status == 'discharged' else f'{o.kind}; counterexample {mod}' if mod else o.kind)
        if status != 'discharged': worst = status
    posts = [k for k in todo if obs[k].kind == 'post' and res[k][0] == 'proved']
    clash = [k for k in posts if res[k][3][1]]
    P.r['contradictory_paths'] = P.r.get('contradictory_paths', 0) + len(clash)
    if posts and len(clash) == len(posts): P.undecided(prefix + 'postconditions are not vacuous', fn, 'the hypotheses of every path contradict each other')
    else: P.r['vacuity'] += len(posts) - len(clash)
    for b in eng.inlined: P.function(b)
    for c in eng.used_contracts: P.note('callee contract used: ' + c)
    seenm = set()
    for m in eng.used_models:
        head = m.split('::')[0]
        P.trust(MODEL_NOTES.get(head, 'library contract assumed: ' + m) if head in MODEL_NOTES else 'library contract assumed: ' + m)
    P.r['solver_time'] = P.r.get('solver_time', 0) + eng.feas_time + sum(r[2] for r in res.values())
    return worst
def goal(eng, st, g, name, kind='post'):
    eng.oblige(st, norm(g) if isz(g) else g, kind, name)
def cover(P, eng, st, name):
    """vacuity guard: the state must be reachable"""
    r = eng.check(st.forms(), st.facts, timeout=5000)
    if r != 'unsat': P.r['vacuity'] += 1
    else: P.undecided('reachable: ' + name, name, 'precondition is contradictory')
    return r != 'unsat'
def attempt(P, name, fn, f):
    """run one proof unit; anything outside the verifier's reach leaves it undecided"""
    try: f()
    except Unsupported as ex:
        P.undecided(name, fn, 'outside the verifier\'s reach: ' + str(ex)[:300])
        if os.environ.get('VP_TB'): import traceback; traceback.print_exc()
    except Exception as ex:
        import traceback
        if os.environ.get('VP_TB'): traceback.print_exc()
        P.undecided(name, fn, 'prover error: ' + traceback.format_exc()[-900:])
STD = ('MIR exporter over rustc_public and the VC generator in /verif/vcg', 'z3 4.8.12')
STDA = ('f64 arithmetic is exact real arithmetic with a not-a-number flag (rounding and overflow to infinity not modelled)',)
