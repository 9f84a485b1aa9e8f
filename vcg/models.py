"""Models (assumed contracts) of library functions the workspace calls: core/alloc iterators,
vectors, slices, options; nalgebra; image; qhull. Every model used in a run is reported."""
import z3
from fractions import Fraction
from values import *

MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d
I = z3.IntSort(); R = z3.RealSort()
SQRT = z3.Function('sqrt', R, R)

def setup(eng):
    global Fact, nested
    from engine import Fact, nested
    eng.declax['sqrt'] = lambda e: OR(e.arg(0) < 0, AND(e >= 0, e * e == e.arg(0)))
    def divax(e):
        a, b = e.arg(0), e.arg(1)
        q, r = DIVF(a, b), MODF(a, b)
        return IMP(AND(b > 0, a >= 0), AND(a == b * q + r, r >= 0, r < b, q >= 0, q <= a))
    eng.declax['idiv'] = divax; eng.declax['imod'] = divax

def deref(ctx, st, p):
    """value behind a reference"""
    if isinstance(p, Ptr): return ctx.e.load(st, p.obj, p.path)
    return p
def some(ctx, ty, v): return En(ty, 1, {1: (v,)})
def none(ty): return En(ty, 0, {0: ()})
def opt_ty(ctx): return ctx.dty
def fconst(x): return F(Fraction(x))

# ================================================================= sequences as iterators
class It(Native):
    """iterator: kind + components"""
    def __init__(self, kind, *a):
        self.kind = kind; self.a = a
    def fields(self): return self.a
    def rebuild(self, fs): return It(self.kind, *fs)
    def key(self): return self.kind
    def __repr__(self): return f'It:{self.kind}{self.a}'

def slice_seq(ctx, st, s):
    """Sl -> Seq of element pointers"""
    return Seq(s.len, lambda i, s=s: Ptr(s.obj, s.path + (('i', ADD(s.start, i)),)), ('slice', s)) if isz(num(s.len)) else \
        SeqL([Ptr(s.obj, s.path + (('i', ADD(s.start, i)),)) for i in range(num(s.len))])
def seq_of(items): return SeqL(items)
def as_slice(ctx, st, p):
    """any reference to something slice-like -> Sl"""
    if isinstance(p, Sl): return p
    if isinstance(p, Ptr):
        v = ctx.e.load(st, p.obj, p.path)
        if isinstance(v, (Seq, Mat)): return Sl(p.obj, p.path, 0, v.n)
        if isinstance(v, (Ptr, Sl)): return as_slice(ctx, st, v)
        if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], (Seq,)): return Sl(p.obj, p.path + (0,), 0, v.f[0].n)
        if isinstance(v, MView): return None
    raise Unsupported(f'slice of {type(p).__name__}')

def to_iter(ctx, st, v, ty=None):
    """IntoIterator"""
    e = ctx.e
    if isinstance(v, It): return v
    if isinstance(v, Sl): return It('seq', slice_seq(ctx, st, v), 0)
    if isinstance(v, Ptr):
        w = e.load(st, v.obj, v.path)
        if isinstance(w, It): return It('byref', v)
        if isinstance(w, MView): return It('seq', SeqL([w.ptr(i, j) for j in range(w.c) for i in range(w.r)]), 0)
        if isinstance(w, HMapBase): return w.iter_refs(ctx, st, v)
        if isinstance(w, Agg) and (ty is None or e.T[ty]['k'] == 'ref'):
            return It('byref', v)
        if isinstance(w, (Seq, Mat)): return It('seq', slice_seq(ctx, st, as_slice(ctx, st, v)), 0)
    if isinstance(v, Mat): return It('seq', SeqL(v.cells), 0)
    if isinstance(v, Seq): return It('seq', v, 0)
    if isinstance(v, HMapBase): return v.into_iter(ctx, st)
    if isinstance(v, En) and v.ty is not None and e.T[v.ty]['name'].endswith('Option'):
        if not isz(v.d): return It('seq', SeqL(v.p[1] if v.d == 1 else []), 0)
    if isinstance(v, Agg):
        T = e.T[v.ty] if v.ty is not None else None
        if T and T['k'] == 'adt':
            n = T['name'].split('::')[-1]
            if n == 'Range': return It('seq', Seq(SUB_sat(v.f[1], v.f[0]), lambda i, lo=v.f[0]: ADD(lo, i), ('range', v.f[0], v.f[1])), 0)
            if n == 'RangeInclusive': return It('seq', Seq(SUB_sat(ADD(v.f[1], 1), v.f[0]), lambda i, lo=v.f[0]: ADD(lo, i)), 0)
        return It('custom', v)
    raise Unsupported(f'into_iter of {type(v).__name__}')
def SUB_sat(a, b):
    if not isz(a) and not isz(b): return max(0, a - b)
    if not isz(b) and b == 0: return a
    return ITE(LE(b, a), SUB(a, b), 0)

@model('IntoIterator::into_iter')
def _into_iter(ctx, st, args):
    return to_iter(ctx, st, args[0], ctx.T['args'][0] if ctx.T['args'] else None)

def ilen(ctx, st, it):
    k = it.kind
    if k == 'seq': return SUB(it.a[0].n, it.a[1])
    if k in ('map', 'enum', 'cloned', 'rev', 'peek'): return ilen(ctx, st, it.a[0])
    if k == 'zip': return IMIN(ilen(ctx, st, it.a[0]), ilen(ctx, st, it.a[1]))
    if k == 'chain':
        a, b = ilen(ctx, st, it.a[0]), ilen(ctx, st, it.a[1])
        return None if a is None or b is None else ADD(a, b)
    if k == 'take': return IMIN(ilen(ctx, st, it.a[0]), it.a[1])
    if k == 'skip': return SUB_sat(ilen(ctx, st, it.a[0]), it.a[1])
    if k == 'byref':
        v = ctx.e.load(st, it.a[0].obj, it.a[0].path)
        return ilen(ctx, st, to_iter(ctx, st, v))
    return None
def IMIN(a, b):
    if a is None or b is None: return None
    if not isz(a) and not isz(b): return min(a, b)
    if same(a, b): return a
    return ITE(LE(a, b), a, b)

def custom_next(ctx, st, v):
    """workspace iterator: run its own next(); -> [(st, v', option)]"""
    e = ctx.e; T = e.T[v.ty]
    t = e.p.tymethods.get(('Iterator::next', e.p.tystr(v.ty)))
    if t is None: raise Unsupported('no next() instance for ' + T['s'])
    st = st.fork()
    o = e.alloc(st, v, 'it')
    outs = e.call(st, FnVal(e.T.index(t)), [Ptr(o)], ctx.fr, ctx.line)
    return [(s, s.store[o], r) for s, r in outs]

def step(ctx, st, it):
    """one next(): -> [(st, it', present?, item)] with present a python bool"""
    e = ctx.e; k = it.kind
    if k == 'seq':
        s, pos = it.a
        c = LT(pos, s.n); c = norm(c) if isz(c) else c
        if isinstance(c, bool):
            if e.innext == e.depth: e.decided = True
            if not c: return [(st, it, False, None)]
            return [(st, It('seq', s, ADD(pos, 1)), True, s.get(pos))]
        res = []
        for s2, b in e.branch(st, [(c, True), (NOT(c), False)]):
            if b: res.append((s2, It('seq', s, ADD(pos, 1)), True, s.get(pos)))
            else: res.append((s2, it, False, None))
        return res
    if k == 'map':
        res = []
        for s, i2, p, x in step(ctx, st, it.a[0]):
            if not p: res.append((s, It('map', i2, it.a[1]), False, None)); continue
            # the closure lives in the iterator: run it on a temporary copy
            o = e.alloc(s, it.a[1], 'clo')
            for s2, y in e.call_closure(s, Ptr(o), [x], ctx.fr):
                res.append((s2, It('map', i2, s2.store[o]), True, y))
        return res
    if k == 'cloned':
        return [(s, It('cloned', i2), p, deref(ctx, s, x) if p else None) for s, i2, p, x in step(ctx, st, it.a[0])]
    if k == 'enum':
        return [(s, It('enum', i2, ADD(it.a[1], 1) if p else it.a[1]), p, Agg(None, [it.a[1], x]) if p else None) for s, i2, p, x in step(ctx, st, it.a[0])]
    if k == 'zip':
        res = []
        for s, i2, p, x in step(ctx, st, it.a[0]):
            if not p: res.append((s, It('zip', i2, it.a[1]), False, None)); continue
            for s2, j2, q, y in step(ctx, s, it.a[1]):
                res.append((s2, It('zip', i2, j2), q, Agg(None, [x, y]) if q else None))
        return res
    if k == 'chain':
        res = []
        for s, i2, p, x in step(ctx, st, it.a[0]):
            if p: res.append((s, It('chain', i2, it.a[1]), True, x)); continue
            for s2, j2, q, y in step(ctx, s, it.a[1]): res.append((s2, It('chain', i2, j2), q, y))
        return res
    if k == 'take':
        if isz(it.a[1]): raise Unsupported('symbolic take')
        if it.a[1] == 0: return [(st, it, False, None)]
        return [(s, It('take', i2, it.a[1] - 1), p, x) for s, i2, p, x in step(ctx, st, it.a[0])]
    if k == 'byref':
        p = it.a[0]
        v = e.load(st, p.obj, p.path)
        res = []
        if isinstance(v, It):
            for s, i2, q, x in step(ctx, st, v):
                s = s.fork(); e.store(s, p.obj, p.path, i2); res.append((s, it, q, x))
            return res
        for s, v2, q, x in step(ctx, st, It('custom', v)):
            s = s.fork(); e.store(s, p.obj, p.path, v2.a[0]); res.append((s, it, q, x))
        return res
    if k == 'custom':
        res = []
        for s, v2, r in custom_next(ctx, st, it.a[0]):
            for s2, d in e.branch(s, [(EQ(r.d, 1), True), (EQ(r.d, 0), False)]):
                res.append((s2, It('custom', v2), d, r.p[1][0] if d else None))
        return res
    if k in ('filter', 'fmap', 'flat', 'rev', 'skip'):
        n = ilen(ctx, st, it.a[0])
        if k in ('filter', 'fmap') and n is not None and not isz(n):
            res = []; todo = [(st, it.a[0])]; clo = it.a[1]
            while todo:
                s, i1 = todo.pop()
                for s2, i2, p, x in step(ctx, s, i1):
                    if not p: res.append((s2, It(k, i2, clo), False, None)); continue
                    if k == 'filter':
                        o = e.alloc(s2, x, 'item')
                        for s3, b in e.call_closure(s2, clo, [Ptr(o)], ctx.fr):
                            for s4, bb in e.branch(s3, [(b, True), (NOT(b), False)]):
                                if bb: res.append((s4, It(k, i2, clo), True, x))
                                else: todo.append((s4, i2))
                    else:
                        for s3, r in e.call_closure(s2, clo, [x], ctx.fr):
                            for s4, bb in e.branch(s3, [(EQ(r.d, 1), True), (EQ(r.d, 0), False)]):
                                if bb: res.append((s4, It(k, i2, clo), True, r.p[1][0]))
                                else: todo.append((s4, i2))
            return res
        res = []
        for s, q in to_seq(ctx, st, it): res += step(ctx, s, It('seq', q, 0))
        return res
    raise Unsupported('step of iterator ' + k)

CONC = 64
def to_seq(ctx, st, it):
    """all remaining items; -> [(st, Seq)]"""
    e = ctx.e; k = it.kind
    n = ilen(ctx, st, it)
    if n is not None and not isz(n) and n <= CONC and k != 'seq':
        cur = [(st, it, [])]
        for _ in range(n):
            nxt = []
            for s, i, xs in cur:
                new = []
                for s2, i2, p, x in step(ctx, s, i):
                    if p: new.append((s2, i2, xs + [x]))
                nxt += mergeitems(e, s, new)
            cur = mergeitems(e, st, nxt)
        return [(s, SeqL(xs)) for s, _, xs in cur]
    if k == 'seq':
        s, pos = it.a
        if same(pos, 0): return [(st, s)]
        return [(st, Seq(SUB(s.n, pos), lambda i: s.get(ADD(i, pos))))]
    if k == 'map':
        res = []
        for s, q in to_seq(ctx, st, it.a[0]):
            res.append(comprehend(ctx, s, q.n, lambda s2, i, q=q: e.call_closure(s2, it.a[1], [q.get(i)], ctx.fr)))
        return res
    if k == 'cloned':
        res = []
        for s, q in to_seq(ctx, st, it.a[0]):
            snap = s.fork()
            res.append((s, Seq(q.n, lambda i, q=q, snap=snap: deref(ctx, snap, q.get(i)))))
        return res
    if k == 'enum':
        return [(s, Seq(q.n, lambda i, q=q: Agg(None, [ADD(it.a[1], i), q.get(i)]))) for s, q in to_seq(ctx, st, it.a[0])]
    if k == 'zip':
        res = []
        for s, q in to_seq(ctx, st, it.a[0]):
            for s2, r in to_seq(ctx, s, it.a[1]):
                res.append((s2, Seq(IMIN(q.n, r.n), lambda i, q=q, r=r: Agg(None, [q.get(i), r.get(i)]))))
        return res
    if k == 'chain':
        res = []
        for s, q in to_seq(ctx, st, it.a[0]):
            for s2, r in to_seq(ctx, s, it.a[1]): res.append((s2, seq_concat(q, r)))
        return res
    if k == 'rev':
        return [(s, Seq(q.n, lambda i, q=q: q.get(SUB(SUB(q.n, 1), i))) if isz(q.n) else SeqL([q.get(j) for j in range(q.n - 1, -1, -1)])) for s, q in to_seq(ctx, st, it.a[0])]
    if k == 'take':
        return [(s, Seq(IMIN(q.n, it.a[1]), q.get)) for s, q in to_seq(ctx, st, it.a[0])]
    if k == 'skip':
        return [(s, Seq(SUB_sat(q.n, it.a[1]), lambda i, q=q: q.get(ADD(i, it.a[1])))) for s, q in to_seq(ctx, st, it.a[0])]
    if k == 'flat':
        res = []
        for s, q in to_seq(ctx, st, it.a[0]):
            if not isz(q.n):
                cur = [(s, [])]
                for j in range(q.n):
                    nxt = []
                    for s2, xs in cur:
                        for s3, v in e.call_closure(s2, it.a[1], [q.get(j)], ctx.fr):
                            for s4, r in to_seq(ctx, s3, to_iter(ctx, s3, v)):
                                if isz(r.n): raise Unsupported('flat_map of symbolic length')
                                nxt.append((s4, xs + [r.get(m) for m in range(r.n)]))
                    cur = nxt
                res += [(s2, SeqL(xs)) for s2, xs in cur]
            else:
                width = [None]
                def f(s2, i, q=q):
                    out = []
                    for s3, v in e.call_closure(s2, it.a[1], [q.get(i)], ctx.fr):
                        for s4, r in to_seq(ctx, s3, to_iter(ctx, s3, v)):
                            if isz(r.n): raise Unsupported('flat_map of symbolic length')
                            if width[0] is None: width[0] = r.n
                            if width[0] != r.n: raise Unsupported('flat_map of varying length')
                            out.append((s4, SeqL([r.get(m) for m in range(r.n)])))
                    return out
                s2, rows = comprehend(ctx, s, q.n, f)
                w = width[0]
                if w is None: raise Unsupported('empty flat_map')
                res.append((s2, flatseq(e, rows, w)))
        return res
    if k in ('filter', 'fmap'):
        n0 = ilen(ctx, st, it.a[0])
        if n0 is not None and not isz(n0) and n0 <= CONC:
            cur = [(st, it, [])]; res = []
            while cur:
                nxt = []
                for s, i, xs in cur:
                    for s2, i2, p, x in step(ctx, s, i):
                        if p: nxt.append((s2, i2, xs + [x]))
                        else: res.append((s2, SeqL(xs)))
                cur = nxt
            return res
        res = []
        for s, q in to_seq(ctx, st, it.a[0]):
            if k == 'filter':
                def f(s2, i, q=q):
                    o = e.alloc(s2, q.get(i), 'item')
                    return e.call_closure(s2, it.a[1], [Ptr(o)], ctx.fr)
            else:
                def f(s2, i, q=q): return e.call_closure(s2, it.a[1], [q.get(i)], ctx.fr)
            s2, c = comprehend(ctx, s, q.n, f)
            pred = (lambda i, c=c: c.get(i)) if k == 'filter' else (lambda i, c=c: EQ(c.get(i).d, 1))
            val = (lambda i, q=q: q.get(i)) if k == 'filter' else (lambda i, c=c: c.get(i).p[1][0])
            res.append(filterseq(e, s2, q.n, pred, val))
        return res
    if k == 'byref':
        v = e.load(st, it.a[0].obj, it.a[0].path)
        return to_seq(ctx, st, to_iter(ctx, st, v))
    if k == 'custom':
        h = MODELS.get('customseq')
        if h:
            r = h(ctx, st, it.a[0])
            if r is not None: return r
        raise Unsupported('sequence of custom iterator')
    raise Unsupported('sequence of iterator ' + k)
def mergeitems(e, base, cur):
    if len(cur) <= 1: return cur
    outs = [(s, Agg(None, [i] + xs)) for s, i, xs in cur]
    m = e.merge_outcomes(base, outs, allow_choice=False, grow=True)
    if m is None: return cur
    s, v = m
    if isinstance(v, Choice): return cur
    return [(s, v.f[0], list(v.f[1:]))]
def seq_concat(q, r):
    if not isz(q.n) and not isz(r.n): return SeqL([q.get(i) for i in range(q.n)] + [r.get(i) for i in range(r.n)])
    if not isz(q.n) and q.n == 0: return r
    if not isz(r.n) and r.n == 1: return SeqApp(q, r.get(0))
    def g(i):
        c = LT(i, q.n); c = norm(c) if isz(c) else c
        if c is True: return q.get(i)
        if c is False: return r.get(SUB(i, q.n))
        return merge(c, q.get(i), r.get(SUB(i, q.n)))
    return Seq(ADD(q.n, r.n), g, ('concat', q, r))
def flatseq(e, rows, w):
    """rows: Seq of SeqL of width w"""
    def g(j):
        qd, rm = e.idivmod(j, w) if not isz(j) else (norm(Z(j) / w), norm(Z(j) % w))
        row = rows.get(qd)
        return row.get(rm)
    return Seq(MUL(rows.n, w), g, ('flat', rows, w))
MARK = z3.Function("index of interest", I, z3.BoolSort())      # always true; contracts name indices with it
def filterseq(e, st, n, pred, val):
    """subsequence of the indices 0..n satisfying pred; -> (st, Seq)"""
    st = st.fork()
    m = e.const(st, 'flen', I)
    nm = freshname('fsel'); inv = freshname('finv')
    ps = st.params
    G = z3.Function(nm, *([I] * (len(ps) + 1)), I); H = z3.Function(inv, *([I] * (len(ps) + 1)), I)
    g = lambda j: G(*ps, Z(j)); h = lambda i: H(*ps, Z(i))
    v = z3.Int(freshname('fv'))
    st.axiom(AND(LE(0, m), LE(m, n)))
    # selected indices: in range, satisfy pred, strictly increasing; every satisfying index is selected
    st.facts = st.facts + (
        Fact(v, IMP(AND(LE(0, v), LT(v, m)), AND(LE(0, g(v)), LT(g(v), n), pred(g(v)), EQ(h(g(v)), v))), 'filter-sel'),
        Fact(v, IMP(AND(LE(0, v), LT(v, n), pred(v)), AND(LE(0, h(v)), LT(h(v), m), EQ(g(h(v)), v))), 'filter-all'),
        Fact(v, IMP(AND(LE(0, v), LT(ADD(v, 1), m)), LT(g(v), g(v + 1))), 'filter-mono'),
        Fact(v, IMP(AND(MARK(v), LE(0, v), LT(v, n)), OR(LT(m, n), pred(v))), 'filter-rejects'),
        Fact(v, IMP(AND(MARK(v), LE(0, v), LT(v, n), pred(v)), AND(LE(0, h(v)), LT(h(v), m), EQ(g(h(v)), v))), 'filter-all'))
    return st, Seq(m, lambda j: val(g(j)), ('filter', n, pred, val, g, h))

class Impure(Unsupported): pass
def comprehend(ctx, st, n, f):
    """[f(i) for i in 0..n] for symbolic n by running f once on an arbitrary index; -> (st, Seq)"""
    e = ctx.e
    i = z3.Int(freshname('i'))
    s0 = st.fork(); s0.params = st.params + (i,)
    s0.assume(AND(LE(0, i), LT(i, n)))
    if not e.feasible(s0):
        return st, Seq(n, lambda j: (_ for _ in ()).throw(Unsupported('element of empty sequence')))
    outs = f(s0.fork(), i)
    if not outs: raise Unsupported('comprehension body always panics')
    for s, v in outs:
        for o, x in s0.store.items():
            if s.store.get(o) is not x: raise Impure(f'iterator closure writes {o}')
        if s.ev != s0.ev: raise Impure('iterator closure has external effects')
    n0 = len(s0.pc); conds = [AND(*s.pc[n0:]) for s, _ in outs]
    st = st.fork(); facts = list(st.facts)
    rng = AND(LE(0, i), LT(i, n))
    for (s, v), c in zip(outs, conds):
        for a in s.ax[len(s0.ax):]: facts.append(Fact(i, IMP(AND(rng, c), a), 'compr'))
        for fct in s.facts[len(s0.facts):]: facts.append(nested(i, AND(rng, c), fct))
        for o, x in s.store.items():
            if o not in st.store and o[0] != 'L': st.store[o] = x
    d = OR(*conds)
    if d is not True: facts.append(Fact(i, IMP(rng, d), 'compr-total'))
    st.facts = tuple(facts)
    val = outs[-1][1]
    for (s, v), c in list(zip(outs, conds))[-2::-1]: val = merge(c, v, val)
    return st, Seq(n, lambda j: subst(val, [(i, Z(j))]), ('compr', i, val))
# ================================================================= Iterator methods
def ptr_it(ctx, st, p):
    """&mut iterator -> (pointer, It)"""
    v = ctx.e.load(st, p.obj, p.path)
    if isinstance(v, Ptr): return ptr_it(ctx, st, v)
    return p, to_iter(ctx, st, v)
@model('Iterator::next')
def _next(ctx, st, args):
    e = ctx.e
    p, it = ptr_it(ctx, st, args[0])
    res = []
    was = e.innext, e.decided; e.innext = e.depth; e.decided = False
    try: outs = step(ctx, st, it)
    finally:
        dec = e.decided; e.innext, e.decided = was
    ctx.advanced(dec)
    for s, i2, pr, x in outs:
        s = s.fork()
        e.store(s, p.obj, p.path, i2.a[0] if i2.kind == 'custom' else i2)
        res.append((s, En(ctx.dty, 1, {1: (x,)}) if pr else En(ctx.dty, 0, {0: ()})))
    return res
def adaptor(kind, nargs=2):
    def f(ctx, st, args):
        return It(kind, to_iter(ctx, st, args[0]), *args[1:nargs])
    return f
MODELS['Iterator::map'] = adaptor('map')
MODELS['Iterator::filter'] = adaptor('filter')
MODELS['Iterator::filter_map'] = adaptor('fmap')
MODELS['Iterator::flat_map'] = adaptor('flat')
MODELS['Iterator::cloned'] = MODELS['Iterator::copied'] = lambda ctx, st, args: It('cloned', to_iter(ctx, st, args[0]))
MODELS['Iterator::enumerate'] = lambda ctx, st, args: It('enum', to_iter(ctx, st, args[0]), 0)
MODELS['Iterator::rev'] = lambda ctx, st, args: It('rev', to_iter(ctx, st, args[0]))
MODELS['Iterator::take'] = lambda ctx, st, args: It('take', to_iter(ctx, st, args[0]), args[1])
MODELS['Iterator::skip'] = lambda ctx, st, args: It('skip', to_iter(ctx, st, args[0]), args[1])
MODELS['Iterator::zip'] = lambda ctx, st, args: It('zip', to_iter(ctx, st, args[0]), to_iter(ctx, st, args[1]))
MODELS['iter::zip'] = MODELS['Iterator::zip']
MODELS['Iterator::chain'] = lambda ctx, st, args: It('chain', to_iter(ctx, st, args[0]), to_iter(ctx, st, args[1]))
MODELS['Iterator::by_ref'] = lambda ctx, st, args: args[0]
MODELS['iter::once'] = lambda ctx, st, args: It('seq', SeqL([args[0]]), 0)
MODELS['iter::empty'] = lambda ctx, st, args: It('seq', SeqL([]), 0)
def _repeat(ctx, st, args): return It('seq', Seq(z3.IntVal(2**62), lambda i: args[0]), 0)

@model('ExactSizeIterator::len', 'Iterator::count')
def _len(ctx, st, args):
    it = args[0]
    if isinstance(it, Ptr): _, it = ptr_it(ctx, st, it)
    else: it = to_iter(ctx, st, it)
    n = ilen(ctx, st, it)
    if n is not None and ctx.name.endswith('len'): return n
    if n is not None and it.kind in ('seq', 'enum', 'cloned'): return n
    return [(s, q.n) for s, q in to_seq(ctx, st, it)]

def quantify(ctx, st, q, f, want):
    """all (want=True)/any (False) of f over q; -> [(st, bool)]"""
    e = ctx.e
    if not isz(q.n):
        acc = []; cur = st
        for i in range(q.n):
            outs = f(cur, q.get(i))
            m = e.merge_outcomes(cur, outs)
            if m is None or isinstance(m[1], Choice): return quant_fork(ctx, st, q, f, want)
            cur, b = m
            acc.append(b)
        r = AND(*acc) if want else OR(*acc)
        return [(cur, norm(r) if isz(r) else r)]
    s, bs = comprehend(ctx, st, q.n, lambda s2, i: f(s2, q.get(i)))
    res = []
    # decided everywhere / refuted at a witness
    s1 = s.fork(); v = z3.Int(freshname('q'))
    off = q.origin[1].start if q.origin and q.origin[0] in ('bytes', 'slice') else 0      # phrase it over absolute positions
    bv = bs.get(SUB(v, off))
    body = IMP(AND(LE(off, v), LT(v, ADD(off, q.n))), bv if want else NOT(bv))
    s1.facts = s1.facts + (Fact(v, body, 'all'),)
    res.append((s1, want))
    s2 = s.fork(); w = e.const(s2, 'wit', I)
    s2.axiom(AND(LE(0, w), LT(w, q.n)))
    s2.assume(NOT(bs.get(w)) if want else bs.get(w))
    if e.feasible(s2): res.append((s2, not want))
    return res
def quant_fork(ctx, st, q, f, want):
    e = ctx.e; cur = [st]; res = []
    for i in range(q.n):
        nxt = []
        for s in cur:
            for s2, b in f(s, q.get(i)):
                for s3, bb in e.branch(s2, [(b, True), (NOT(b), False)]):
                    if bb == want: nxt.append(s3)
                    else: res.append((s3, not want))
        cur = nxt
    return res + [(s, want) for s in cur]
def quantm(want):
    def f(ctx, st, args):
        e = ctx.e
        it = args[0]
        if isinstance(it, Ptr): p, it = ptr_it(ctx, st, it)
        else: it = to_iter(ctx, st, it)
        res = []
        for s, q in to_seq(ctx, st, it):
            res += quantify(ctx, s, q, lambda s2, x: e.call_closure(s2, args[1], [x], ctx.fr), want)
        return res
    return f
MODELS['Iterator::all'] = quantm(True)
MODELS['Iterator::any'] = quantm(False)

def find_first(ctx, st, q, f):
    """first index whose f is true: -> [(st, index or None)]"""
    e = ctx.e
    if not isz(q.n):
        cur = [st]; res = []
        for i in range(q.n):
            nxt = []
            for s in cur:
                outs = f(s, q.get(i))
                m = e.merge_outcomes(s, outs)
                if m is not None and not isinstance(m[1], Choice): outs = [m]
                for s2, b in outs:
                    for s3, bb in e.branch(s2, [(b, True), (NOT(b), False)]):
                        (res if bb else nxt).append((s3, i) if bb else s3)
            cur = nxt
        return res + [(s, None) for s in cur]
    s, bs = comprehend(ctx, st, q.n, lambda s2, i: f(s2, q.get(i)))
    res = []
    s1 = s.fork(); w = e.const(s1, 'first', I); v = z3.Int(freshname('q'))
    s1.axiom(AND(LE(0, w), LT(w, q.n)))
    s1.assume(bs.get(w))
    s1.facts = s1.facts + (Fact(v, IMP(AND(LE(0, v), LT(v, w)), NOT(bs.get(v))), 'before-first'),)
    if e.feasible(s1): res.append((s1, w))
    s2 = s.fork(); v = z3.Int(freshname('q'))
    s2.facts = s2.facts + (Fact(v, IMP(AND(LE(0, v), LT(v, q.n)), NOT(bs.get(v))), 'none-found'),)
    if e.feasible(s2): res.append((s2, None))
    return res
def self_iter(ctx, st, a):
    if isinstance(a, Ptr): return ptr_it(ctx, st, a)[1]
    return to_iter(ctx, st, a)
@model('Iterator::position')
def _position(ctx, st, args):
    e = ctx.e; res = []
    for s, q in to_seq(ctx, st, self_iter(ctx, st, args[0])):
        for s2, i in find_first(ctx, s, q, lambda s2, x: e.call_closure(s2, args[1], [x], ctx.fr)):
            res.append((s2, none(ctx.dty) if i is None else some(ctx, ctx.dty, i)))
    return res
@model('Iterator::find')
def _find(ctx, st, args):
    e = ctx.e; res = []
    def f(s2, x):
        o = e.alloc(s2, x, 'item')
        return e.call_closure(s2, args[1], [Ptr(o)], ctx.fr)
    it = self_iter(ctx, st, args[0])
    for s, q in to_seq(ctx, st, it):
        try: found = find_first(ctx, s, q, f)
        except Impure:
            found = find_effect(ctx, s, q, f)
        for s2, i in found:
            res.append((s2, none(ctx.dty) if i is None else some(ctx, ctx.dty, q.get(i))))
    return res
def find_effect(ctx, st, q, f):
    """find with a predicate that writes captured state: summarised as a loop"""
    import loops
    e = ctx.e
    st = st.fork()
    pos = e.alloc(st, 0, 'pos')
    def body(s):
        p = s.store[pos]; outs = []
        for s2, b in e.branch(s, [(LT(p, q.n), True), (NOT(LT(p, q.n)), False)]):
            if not b: outs.append(('exit', s2, None)); continue
            for s3, r in f(s2.fork(), q.get(p)):
                for s4, bb in e.branch(s3, [(r, True), (NOT(r), False)]):
                    if bb: outs.append(('exit', s4, p))
                    else:
                        s4 = s4.fork(); s4.store[pos] = ADD(p, 1)
                        outs.append(('back', s4))
        return outs
    return [(o[1], o[2]) for o in loops.summarise(e, st, body, ctx.where('find'), bound=[(pos, (), q.n)])]
@model('Iterator::find_map')
def _find_map(ctx, st, args):
    e = ctx.e; res = []
    for s, q in to_seq(ctx, st, It('fmap', self_iter(ctx, st, args[0]), args[1])):
        for s2, i2, p, x in step(ctx, s, It('seq', q, 0)):
            res.append((s2, some(ctx, ctx.dty, x) if p else none(ctx.dty)))
    return res

def extremum(ctx, st, q, cmpf, want_max):
    """min_by / max_by with comparison cmpf(st, a, b) -> [(st, Ordering)]; -> [(st, value or None)]"""
    e = ctx.e
    if not isz(q.n):
        if q.n == 0: return [(st, None)]
        cur = [(st, q.get(0))]
        for i in range(1, q.n):
            nxt = []
            for s, acc in cur:
                o1 = e.alloc(s, acc, 'a'); o2 = e.alloc(s, q.get(i), 'b')
                for s2, r in cmpf(s, Ptr(o1), Ptr(o2)):
                    keep = NOT(EQ(r.d, 2)) if not want_max else EQ(r.d, 2)     # min keeps acc unless Greater; max takes new unless Greater
                    v = merge(keep, acc, q.get(i))
                    if isinstance(v, Choice):
                        for s3, k in e.branch(s2, [(keep, True), (NOT(keep), False)]): nxt.append((s3, acc if k else q.get(i)))
                    else: nxt.append((s2, v))
            cur = nxt
        return cur
    res = []
    for s, b in e.branch(st, [(EQ(q.n, 0), False), (NOT(EQ(q.n, 0)), True)]):
        if not b: res.append((s, None)); continue
        s = s.fork(); w = e.const(s, 'arg' + ('max' if want_max else 'min'), I)
        s.axiom(AND(LE(0, w), LT(w, q.n)))
        def f(s2, i):
            o1 = e.alloc(s2, q.get(w), 'a'); o2 = e.alloc(s2, q.get(i), 'b')
            out = []
            for s3, r in cmpf(s2, Ptr(o1), Ptr(o2)): out.append((s3, r.d))
            return out
        s2, ds = comprehend(ctx, s, q.n, f)
        s2 = s2.fork(); v = z3.Int(freshname('q'))
        ok = (lambda d: NOT(EQ(d, 2))) if not want_max else (lambda d: NOT(EQ(d, 0)))
        s2.facts = s2.facts + (Fact(v, IMP(AND(LE(0, v), LT(v, q.n)), ok(ds.get(v))), 'extremum'),)
        res.append((s2, q.get(w)))
        s2.notes = dict(s2.notes); s2.notes[('arg', w.get_id())] = (q, w)
    return res
def ext_m(want_max):
    def f(ctx, st, args):
        e = ctx.e; res = []
        for s, q in to_seq(ctx, st, self_iter(ctx, st, args[0])):
            for s2, v in extremum(ctx, s, q, lambda s3, a, b: e.call_closure(s3, args[1], [a, b], ctx.fr), want_max):
                res.append((s2, none(ctx.dty) if v is None else some(ctx, ctx.dty, v)))
        return res
    return f
MODELS['Iterator::min_by'] = ext_m(False)
MODELS['Iterator::max_by'] = ext_m(True)
def ext_key(want_max):
    def f(ctx, st, args):
        e = ctx.e; res = []
        def cmpf(s, a, b):
            out = []
            for s1, x in e.call_closure(s, args[1], [a], ctx.fr):
                for s2, y in e.call_closure(s1, args[1], [b], ctx.fr): out.append((s2, e.ordering(order(x, y))))
            return out
        for s, q in to_seq(ctx, st, self_iter(ctx, st, args[0])):
            for s2, v in extremum(ctx, s, q, cmpf, want_max):
                res.append((s2, none(ctx.dty) if v is None else some(ctx, ctx.dty, v)))
        return res
    return f
MODELS['Iterator::min_by_key'] = ext_key(False)
MODELS['Iterator::max_by_key'] = ext_key(True)
def order(x, y):
    """0 less, 1 equal, 2 greater (lexicographic on tuples)"""
    if isinstance(x, Agg):
        r = 1
        for a, b in reversed(list(zip(x.f, y.f))):
            o = order(a, b)
            r = ITE(EQ(o, 1), r, o)
        return r
    if isinstance(x, F): return ITE(rlt(x.v, y.v), 0, ITE(req(x.v, y.v), 1, 2))
    return ITE(LT(x, y), 0, ITE(EQ(x, y), 1, 2))
@model('Iterator::max', 'Iterator::min')
def _maxmin(ctx, st, args):
    mx = ctx.name.endswith('max'); e = ctx.e; res = []
    def cmpf(s, a, b):
        x, y = deref(ctx, s, a), deref(ctx, s, b)
        while isinstance(x, Ptr): x = deref(ctx, s, x)
        while isinstance(y, Ptr): y = deref(ctx, s, y)
        return [(s, e.ordering(order(x, y)))]
    for s, q in to_seq(ctx, st, self_iter(ctx, st, args[0])):
        for s2, v in extremum(ctx, s, q, cmpf, mx): res.append((s2, none(ctx.dty) if v is None else some(ctx, ctx.dty, v)))
    return res

class SumTerm:
    def __init__(self, fn, seq): self.fn = fn; self.seq = seq
@model('Iterator::sum')
def _sum(ctx, st, args):
    e = ctx.e; res = []
    for s, q in to_seq(ctx, st, self_iter(ctx, st, args[0])):
        snap = s
        item = lambda i, q=q, snap=snap: deref(ctx, snap, q.get(i))
        if not isz(q.n):
            if ctx.e.T[ctx.dty]['k'] == 'float':
                r = fconst(0)
                for i in range(q.n): r = fadd(r, item(i))
            else:
                r = 0
                for i in range(q.n): r = ADD(r, item(i))
            res.append((s, r)); continue
        res.append((s, sumof(e, s, q.n, item, ctx.e.T[ctx.dty]['k'] == 'float')))
    return res
def sumof(e, st, n, item, isf):
    """uninterpreted total of item(0..n); the summand is recorded so that specs can compare it"""
    import nalg
    if not isf: raise Unsupported('integer sum of symbolic length')
    return nalg.sumterm(e, st, n, item)
@model('Iterator::fold')
def _fold(ctx, st, args):
    import loops
    e = ctx.e; res = []
    for s, q in to_seq(ctx, st, self_iter(ctx, st, args[0])):
        if not isz(q.n):
            cur = [(s, args[1])]
            for i in range(q.n):
                nxt = []
                for s2, acc in cur: nxt += e.call_closure(s2, args[2], [acc, q.get(i)], ctx.fr)
                m = e.merge_outcomes(s, nxt, allow_choice=False)
                cur = [m] if m is not None and not isinstance(m[1], Choice) else nxt
            res += cur; continue
        s = s.fork(); pos = e.alloc(s, 0, 'pos'); accp = e.alloc(s, args[1], 'acc')
        def body(s2, q=q, pos=pos, accp=accp):
            p = s2.store[pos]; outs = []
            for s3, b in e.branch(s2, [(LT(p, q.n), True), (NOT(LT(p, q.n)), False)]):
                if not b: outs.append(('exit', s3, s3.store[accp])); continue
                for s4, r in e.call_closure(s3, args[2], [s3.store[accp], q.get(p)], ctx.fr):
                    s4 = s4.fork(); s4.store[accp] = r; s4.store[pos] = ADD(p, 1); outs.append(('back', s4))
            return outs
        res += [(o[1], o[2]) for o in loops.summarise(e, s, body, ctx.where('fold'), bound=[(pos, (), q.n)])]
    return res
@model('Iterator::for_each')
def _for_each(ctx, st, args):
    import loops
    e = ctx.e
    it = to_iter(ctx, st, args[0])
    st = st.fork(); cell = e.alloc(st, it, 'it'); clo = e.alloc(st, args[1], 'clo')
    n = ilen(ctx, st, it)
    def body(s2):
        outs = []
        for s3, i2, p, x in step(ctx, s2, s2.store[cell]):
            s3 = s3.fork(); s3.store[cell] = i2
            if not p: outs.append(('exit', s3, None)); continue
            for s4, r in e.call_closure(s3, Ptr(clo), [x], ctx.fr): outs.append(('back', s4))
        return outs
    if n is not None and not isz(n) and n <= CONC:
        cur = [st]; fin = []
        while cur:
            nxt = []
            for s in cur:
                for o in body(s): (fin if o[0] == 'exit' else nxt).append(o[1])
            cur = e.merge_states(st, nxt)
        return [(s, Agg(None, [])) for s in fin]
    return [(o[1], Agg(None, [])) for o in loops.summarise(e, st, body, ctx.where('for_each'))]
@model('Iterator::last')
def _last(ctx, st, args):
    return [(s, none(ctx.dty) if (not isz(q.n) and q.n == 0) else some(ctx, ctx.dty, q.get(SUB(q.n, 1)))) for s, q in to_seq(ctx, st, self_iter(ctx, st, args[0]))]
@model('Iterator::nth')
def _nth(ctx, st, args):
    e = ctx.e; n = args[1]
    if isz(n): raise Unsupported('nth')
    p, it = ptr_it(ctx, st, args[0]); cur = [(st, it)]; res = []
    for i in range(n + 1):
        nxt = []
        for s, i1 in cur:
            for s2, i2, pr, x in step(ctx, s, i1):
                if not pr or i == n:
                    s2 = s2.fork(); e.store(s2, p.obj, p.path, i2)
                    res.append((s2, some(ctx, ctx.dty, x) if pr else none(ctx.dty)))
                else: nxt.append((s2, i2))
        cur = nxt
    return res

@model('Iterator::collect', 'FromIterator::from_iter')
def _collect(ctx, st, args):
    e = ctx.e; T = e.T[ctx.dty]
    n = T['name'].split('::')[-1] if T['k'] == 'adt' else ''
    it = to_iter(ctx, st, args[0])
    if n in ('Vec', 'Box', 'String'):
        return [(s, q) for s, q in to_seq(ctx, st, it)]
    if n == 'HashMap':
        return MODELS['collect:HashMap'](ctx, st, it)
    if n in ('Result', 'Option') : return collect_try(ctx, st, it, n, T)
    if n == 'ImageBuffer': raise Unsupported('collect image')
    # workspace FromIterator
    if ctx.name == 'Iterator::collect':
        t = e.p.tymethods.get(('FromIterator::from_iter', e.p.tystr(ctx.dty)))
        for t in e.T:
            if t['k'] == 'fndef' and short_(t['name']) == 'FromIterator::from_iter' and t['inst'] and isinstance(t['args'][0], int) and e.p.tystr(t['args'][0]) == e.p.tystr(ctx.dty):
                b = e.p.B.get(t['inst']['key'])
                if b and b['crate'] in e.p.ws: return e.call(st, FnVal(e.T.index(t)), [it], ctx.fr, ctx.line, ctx.dty)
    return NotImplemented
def short_(n):
    from engine import short
    return short(n)
def collect_try(ctx, st, it, n, T):
    """collect into Result<Vec,_>/Option<Vec>: first failure wins"""
    e = ctx.e; res = []
    okv, badv = (0, 1) if n == 'Result' else (1, 0)
    for s, q in to_seq(ctx, st, it):
        for s2, i in find_first(ctx, s, q, lambda s3, x: [(s3, EQ(x.d, badv))]):
            if i is None:
                res.append((s2, En(ctx.dty, okv, {okv: (Seq(q.n, lambda j, q=q: q.get(j).p[okv][0]) if isz(q.n) else SeqL([q.get(j).p[okv][0] for j in range(q.n)]),)})))
            else: res.append((s2, En(ctx.dty, badv, {badv: q.get(i).p[badv]})))
    return res

# ================================================================= Vec / slices / boxes
@model('Vec::new', 'Vec::with_capacity', 'String::new', 'String::with_capacity', 'Vec::default')
def _vnew(ctx, st, args): return SeqL([])
@model('vec::from_elem')
def _from_elem(ctx, st, args):
    if isz(args[1]): return Seq(args[1], lambda i: args[0])
    return SeqL([args[0]] * args[1]) if args[1] <= 4096 else Seq(args[1], lambda i: args[0])
@model('Vec::push', 'String::push')
def _push(ctx, st, args):
    v = deref(ctx, st, args[0])
    if isinstance(v, Ptr): args = [v] + list(args[1:]); v = deref(ctx, st, v)
    if not isinstance(v, Seq): raise Unsupported('push to ' + type(v).__name__)
    ctx.e.store(st, args[0].obj, args[0].path, seq_push(v, args[1]))
    return Agg(None, [])
@model('Vec::reserve', 'Vec::shrink_to_fit')
def _res(ctx, st, args): return Agg(None, [])
@model('Vec::len', 'slice::len', 'str::len', 'String::len')
def _vlen(ctx, st, args): return as_slice(ctx, st, args[0]).len
@model('Vec::is_empty', 'slice::is_empty', 'str::is_empty')
def _vemp(ctx, st, args): return EQ(as_slice(ctx, st, args[0]).len, 0)
@model('Vec::clear')
def _clear(ctx, st, args):
    ctx.e.store(st, args[0].obj, args[0].path, SeqL([])); return Agg(None, [])
@model('Vec::into_boxed_slice', 'Vec::into_vec', 'slice::into_vec', 'slice::to_vec_in', 'Box::from', 'Vec::from')
def _ident(ctx, st, args):
    v = args[0]
    if isinstance(v, Agg) and len(v.f) == 1 and isinstance(v.f[0], Seq): return v.f[0]
    return v
@model('slice::to_vec', 'slice::into_owned', 'ToOwned::to_owned')
def _tovec(ctx, st, args):
    s = as_slice(ctx, st, args[0]); b = ctx.e.load(st, s.obj, s.path)
    if not isz(num(s.len)): return SeqL([b.get(ADD(s.start, i)) for i in range(num(s.len))])
    return Seq(s.len, lambda i: b.get(ADD(s.start, i)))
@model('Vec::as_slice', 'Vec::as_mut_slice', 'Matrix::as_slice', 'Matrix::as_mut_slice', 'String::as_bytes', 'str::as_bytes', 'String::as_str', 'slice::as_slice', 'array::as_slice', 'AsRef::as_ref', 'Borrow::borrow')
def _asslice(ctx, st, args):
    if isinstance(args[0], Ptr):
        v = deref(ctx, st, args[0])
        if not isinstance(v, (Seq, Mat, Ptr, Sl)): return NotImplemented
    return as_slice(ctx, st, args[0])
@model('Deref::deref', 'DerefMut::deref_mut', 'Matrix::deref')
def _deref(ctx, st, args):
    v = deref(ctx, st, args[0])
    T = ctx.e.T[ctx.dty]
    if isinstance(v, Seq): return Sl(args[0].obj, args[0].path, 0, v.n)
    if isinstance(v, (Mat, MView)): return args[0]            # XYZW views of fixed vectors
    if isinstance(v, Img):
        import nalg
        return nalg.img_bytes(ctx, st, args[0], v)
    return NotImplemented
@model('slice::iter', 'slice::iter_mut', 'Vec::iter', 'Vec::iter_mut')
def _siter(ctx, st, args): return It('seq', slice_seq(ctx, st, as_slice(ctx, st, args[0])), 0)
@model('slice::get', 'slice::get_mut')
def _sget(ctx, st, args):
    s = as_slice(ctx, st, args[0]); i = args[1]
    if isinstance(i, Agg): return NotImplemented
    c = LT(i, s.len); c = norm(c) if isz(c) else c
    return [(s2, some(ctx, ctx.dty, Ptr(s.obj, s.path + (('i', ADD(s.start, i)),))) if b else none(ctx.dty))
            for s2, b in ctx.e.branch(st, [(c, True), (NOT(c), False)])]
@model('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def _sfirst(ctx, st, args):
    s = as_slice(ctx, st, args[0]); i = 0 if 'first' in ctx.name else SUB(s.len, 1)
    c = LT(0, s.len); c = norm(c) if isz(c) else c
    return [(s2, some(ctx, ctx.dty, Ptr(s.obj, s.path + (('i', ADD(s.start, i)),))) if b else none(ctx.dty))
            for s2, b in ctx.e.branch(st, [(c, True), (NOT(c), False)])]
@model('slice::split_first_mut', 'slice::split_first')
def _split_first(ctx, st, args):
    s = as_slice(ctx, st, args[0])
    c = LT(0, s.len); c = norm(c) if isz(c) else c
    return [(s2, some(ctx, ctx.dty, Agg(None, [Ptr(s.obj, s.path + (('i', s.start),)), Sl(s.obj, s.path, ADD(s.start, 1), SUB(s.len, 1))])) if b else none(ctx.dty))
            for s2, b in ctx.e.branch(st, [(c, True), (NOT(c), False)])]
@model('slice::split_at', 'slice::split_at_mut')
def _split_at(ctx, st, args):
    s = as_slice(ctx, st, args[0]); m = args[1]
    if not ctx.panic(st, LE(m, s.len), 'split_at'): return []
    return Agg(None, [Sl(s.obj, s.path, s.start, m), Sl(s.obj, s.path, ADD(s.start, m), SUB(s.len, m))])
@model('slice::swap')
def _sswap(ctx, st, args):
    s = as_slice(ctx, st, args[0]); e = ctx.e; a, b = args[1], args[2]
    if not ctx.panic(st, AND(LT(a, s.len), LT(b, s.len)), 'swap'): return []
    pa, pb = s.path + (('i', ADD(s.start, a)),), s.path + (('i', ADD(s.start, b)),)
    x, y = e.load(st, s.obj, pa), e.load(st, s.obj, pb)
    e.store(st, s.obj, pa, y); e.store(st, s.obj, pb, x)
    return Agg(None, [])
@model('mem::swap')
def _mswap(ctx, st, args):
    a, b = args; e = ctx.e
    x, y = deref(ctx, st, a), deref(ctx, st, b)
    e.store(st, a.obj, a.path, y); e.store(st, b.obj, b.path, x)
    return Agg(None, [])
@model('mem::replace')
def _mrep(ctx, st, args):
    x = deref(ctx, st, args[0]); ctx.e.store(st, args[0].obj, args[0].path, args[1]); return x
@model('mem::take')
def _mtake(ctx, st, args):
    x = deref(ctx, st, args[0])
    if isinstance(x, Seq): ctx.e.store(st, args[0].obj, args[0].path, SeqL([])); return x
    return NotImplemented
@model('mem::drop', 'mem::forget')
def _mdrop(ctx, st, args):
    h = getattr(args[0], 'heap', None)
    if h is not None and ctx.name.endswith('drop'): st.ev = st.ev + (('free', h),)
    return Agg(None, [])
@model('slice::from_raw_parts', 'slice::from_raw_parts_mut', 'ptr::slice_from_raw_parts', 'ptr::slice_from_raw_parts_mut')
def _frp(ctx, st, args):
    """a view of memory someone else owns: it must lie within the object pointed into"""
    p, n = args; e = ctx.e
    if isinstance(p, Ptr) and p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == 'i':
        k = p.path[-1][1]; base = e.load(st, p.obj, p.path[:-1])
        if 'slice_from' not in ctx.name:
            c = LE(ADD(k, n), base.n)
            e.oblige(st, norm(c) if isz(c) else c, 'memory', ctx.where('slice from raw parts stays inside the buffer'))
        return Sl(p.obj, p.path[:-1], k, n)
    return NotImplemented
@model('ptr::copy_nonoverlapping', 'ptr::copy')
def _pcopy(ctx, st, args):
    s, d, n = args; e = ctx.e
    def sl(p):
        if isinstance(p, Ptr) and p.path and isinstance(p.path[-1], tuple) and p.path[-1][0] == 'i':
            k = p.path[-1][1]; base = e.load(st, p.obj, p.path[:-1])
            c = LE(ADD(k, n), base.n)
            e.oblige(st, norm(c) if isz(c) else c, 'memory', ctx.where('copied bytes stay inside the buffer'))
            return Sl(p.obj, p.path[:-1], k, n)
        raise Unsupported('copy through a foreign pointer')
    return _copy_from(ctx, st, [sl(d), sl(s)])
@model('slice::as_ptr', 'slice::as_mut_ptr', 'Vec::as_ptr', 'Vec::as_mut_ptr')
def _asptr(ctx, st, args):
    s = as_slice(ctx, st, args[0])
    return Ptr(s.obj, s.path + (('i', s.start),))
@model('ptr::null', 'ptr::null_mut')
def _null(ctx, st, args): return CPtr('null', 0)
@model('slice::contains')
def _contains(ctx, st, args):
    s = as_slice(ctx, st, args[0]); b = ctx.e.load(st, s.obj, s.path); x = deref(ctx, st, args[1])
    q = Seq(s.len, lambda i: b.get(ADD(s.start, i))) if isz(s.len) else SeqL([b.get(ADD(s.start, i)) for i in range(s.len)])
    return quantify(ctx, st, q, lambda s2, y: [(s2, deep_eq(x, y))], False)
@model('Index::index', 'IndexMut::index_mut')
def _index(ctx, st, args):
    base, i = args; e = ctx.e
    a0 = ctx.T['args'][0] if ctx.T['args'] else None
    if isinstance(a0, int) and e.T[a0]['k'] == 'str':
        import strs
        return strs.str_index(ctx, st, base, i)
    v = deref(ctx, st, base) if isinstance(base, Ptr) else None
    if isinstance(v, (Ptr, Sl)): return _index(ctx, st, [v, i])
    if isinstance(v, HMapBase): return v.index_op(ctx, st, base, i)
    if isinstance(v, MView):
        if isinstance(i, Agg): return v.ptr(i.f[0], i.f[1])
        n = v.r * v.c if not isz(v.r) and not isz(v.c) else None
        if not isz(i):
            if v.c == 1 or not isz(v.c) and v.c == 1: return v.ptr(i, 0)
            if v.r == 1: return v.ptr(0, i)
        if v.r == 1:
            if not ctx.panic(st, LT(i, v.c), 'index'): return []
            return v.ptr(0, i)
        if v.c == 1:
            if not ctx.panic(st, LT(i, v.r), 'index'): return []
            return v.ptr(i, 0)
        raise Unsupported('view index')
    if isinstance(v, MatF):
        if isinstance(i, Agg):
            if not ctx.panic(st, AND(LT(i.f[0], v.r), LT(i.f[1], v.c)), 'matrix index'): return []
            return Ptr(base.obj, base.path + (('m', i.f[0], i.f[1]),))
        raise Unsupported('linear index')
    if isinstance(v, Mat) and isinstance(i, Agg):
        a, b = i.f
        c = AND(LT(a, v.r), LT(b, v.c))
        if not ctx.panic(st, c, 'matrix index'): return []
        return Ptr(base.obj, base.path + (('i', ADD(MUL(b, v.r), a)),))
    if isinstance(v, Agg) and v.ty is not None and e.T[v.ty]['k'] == 'adt' and e.T[v.ty]['name'].split('::')[-1] in ('Rgb', 'Luma', 'Rgba'):
        return _index(ctx, st, [Ptr(base.obj, base.path + (0,)), i])
    if isinstance(v, (Seq, Mat)) or isinstance(base, Sl):
        s = as_slice(ctx, st, base)
        if isinstance(i, Agg):
            T = e.T[i.ty]['name'].split('::')[-1]
            if T == 'RangeFull': return s
            lo = i.f[0] if T in ('Range', 'RangeFrom') else 0
            hi = {'Range': lambda: i.f[1], 'RangeTo': lambda: i.f[0], 'RangeFrom': lambda: s.len}[T]()
            if not ctx.panic(st, AND(LE(lo, hi), LE(hi, s.len)), 'slice index'): return []
            return Sl(s.obj, s.path, ADD(s.start, lo), SUB(hi, lo))
        if not ctx.panic(st, LT(i, s.len), 'index'): return []
        return Ptr(s.obj, s.path + (('i', ADD(s.start, i)),))
    return NotImplemented
@model('Box::new')
def _boxnew(ctx, st, args): return Agg(ctx.dty, [args[0]])
@model('Box::into_raw')
def _into_raw(ctx, st, args):
    v = args[0]
    if isinstance(v, Seq):
        o = ctx.e.alloc(st, v, 'heap')
        st.ev = st.ev + (('into_raw', o, ctx.T['args'][0]),)
        return Sl(o, (), 0, v.n)
    o = ctx.e.alloc(st, v.f[0], 'heap')
    st.ev = st.ev + (('into_raw', o, ctx.T['args'][0]),)
    return Ptr(o)
@model('Box::from_raw')
def _from_raw(ctx, st, args):
    p = args[0]
    if isinstance(p, CPtr): raise Unsupported('box from a foreign pointer')
    ctx.e._box = getattr(ctx.e, '_box', 0) + 1
    st.ev = st.ev + (('from_raw', p, ctx.T['args'][0], ctx.e._box),)
    if isinstance(p, Sl):
        v = ctx.e.load(st, p.obj, p.path)
        r = Seq(p.len, lambda i: v.get(ADD(p.start, i)))
    else:
        r = BoxV(ctx.dty, [deref(ctx, st, p)])
    r.heap = ctx.e._box
    return r
class BoxV(Agg):
    """a box made from a raw pointer; heap identifies the from_raw call"""
    __slots__ = ('heap',)
def drop_hook(e, st, fr, obj, path, *_):
    try: v = e.load(st, obj, path)
    except Unsupported: return
    h = getattr(v, 'heap', None)
    if h is not None: st.ev = st.ev + (('free', h),)
MODELS['drop'] = drop_hook
def ptrcast(e, st, v, ft, tt):
    """a pointer to a slice cast to a thin pointer points at its first element"""
    T = e.T[tt]
    if isinstance(v, Sl) and T['k'] in ('ptr', 'ref') and e.T[T['to']]['k'] not in ('slice', 'str', 'dyn'):
        return Ptr(v.obj, v.path + (('i', v.start),))
    return v
MODELS['ptrcast'] = ptrcast
@model('slice::copy_from_slice')
def _copy_from(ctx, st, args):
    d, s = args; e = ctx.e
    d = as_slice(ctx, st, d); s = as_slice(ctx, st, s)
    if not ctx.panic(st, EQ(d.len, s.len), 'copy_from_slice length'): return []
    src = e.load(st, s.obj, s.path)
    old = e.load(st, d.obj, d.path)
    if isinstance(old, Seq):
        def g(i):
            c = AND(LE(d.start, i), LT(i, ADD(d.start, d.len)))
            c = norm(c) if isz(c) else c
            if c is True: return src.get(ADD(SUB(i, d.start), s.start))
            return merge(c, src.get(ADD(SUB(i, d.start), s.start)), old.get(i))
        e.store(st, d.obj, d.path, Seq(old.n, g))
    return Agg(None, [])

# ================================================================= Option / Result / misc
@model('Option::unwrap', 'Option::expect')
def _unwrap(ctx, st, args):
    v = args[0]
    if not isinstance(v, En): return NotImplemented
    if not ctx.panic(st, EQ(v.d, 1), 'unwrap of None'): return []
    return v.p[1][0]
@model('Result::unwrap', 'Result::expect')
def _runwrap(ctx, st, args):
    v = args[0]
    if not ctx.panic(st, EQ(v.d, 0), 'unwrap of Err'): return []
    return v.p[0][0]
@model('Option::is_some', 'Option::is_none')
def _is_some(ctx, st, args):
    v = deref(ctx, st, args[0])
    return EQ(v.d, 1 if ctx.name.endswith('some') else 0)
@model('Result::is_ok', 'Result::is_err')
def _is_ok(ctx, st, args):
    v = deref(ctx, st, args[0])
    return EQ(v.d, 0 if ctx.name.endswith('ok') else 1)
@model('Option::unwrap_or')
def _unwrap_or(ctx, st, args):
    v = args[0]
    if v.d == 1: return v.p[1][0]
    if v.d == 0: return args[1]
    return merge(EQ(v.d, 1), v.p[1][0], args[1])
@model('Option::as_ref', 'Option::as_mut')
def _as_ref(ctx, st, args):
    v = deref(ctx, st, args[0])
    return En(ctx.dty, v.d, {0: (), 1: (Ptr(args[0].obj, args[0].path + (('v', 1), 0)),)})
@model('Option::cloned', 'Option::copied')
def _ocloned(ctx, st, args):
    v = args[0]
    if not isz(v.d): return En(ctx.dty, v.d, {0: ()} if v.d == 0 else {1: (deref(ctx, st, v.p[1][0]),)})
    return En(ctx.dty, v.d, {0: (), 1: (deref(ctx, st, v.p[1][0]),)})
@model('Cell::new')
def _cnew(ctx, st, args): return Agg(ctx.dty, [args[0]])
@model('Cell::get')
def _cget(ctx, st, args): return deref(ctx, st, args[0]).f[0]
@model('Cell::set')
def _cset(ctx, st, args):
    v = deref(ctx, st, args[0])
    ctx.e.store(st, args[0].obj, args[0].path, Agg(v.ty, [args[1]])); return Agg(None, [])
@model('Cell::replace')
def _crep(ctx, st, args):
    v = deref(ctx, st, args[0]); ctx.e.store(st, args[0].obj, args[0].path, Agg(v.ty, [args[1]])); return v.f[0]
@model('Clone::clone')
def _clone(ctx, st, args):
    v = args[0]
    if isinstance(v, Ptr): return deref(ctx, st, v)
    return v
@model('Into::into', 'From::from')
def _into(ctx, st, args):
    e = ctx.e; v = args[0]
    d = e.matdims(ctx.dty)
    if d and isinstance(v, SeqL) and d[0] is not None: return Mat(d[0], d[1], v.items)
    T = e.T[ctx.dty]
    if isinstance(v, (Mat,)) and T['k'] == 'array': return SeqL(v.cells)
    if T['k'] == 'adt' and T['name'].endswith('String'):
        return Opaque('string')
    if T['k'] == 'adt' and T['name'].endswith('Box'): return Opaque('boxed')
    if T['k'] in ('uint', 'int') and not isinstance(v, (Agg, Mat)): return ITE(v, 1, 0) if (isinstance(v, bool) or z3.is_bool(v)) else v
    if T['k'] == 'float' and not isinstance(v, F): return F(Fraction(v)) if not isz(v) else F(z3.ToReal(v))
    if isinstance(v, F) and T['k'] == 'float': return v
    # reflexive From<T> for T
    a = ctx.T['args']
    if len(a) >= 2 and isinstance(a[0], int) and isinstance(a[1], int) and e.p.tystr(a[0]) == e.p.tystr(a[1]): return v
    h = MODELS.get('into')
    if h:
        r = h(ctx, st, v)
        if r is not None: return r
    return NotImplemented
@model('PartialEq::eq', 'PartialEq::ne')
def _eq(ctx, st, args):
    x, y = args
    while isinstance(x, Ptr) and isinstance(y, Ptr):
        x, y = deref(ctx, st, x), deref(ctx, st, y)
    ne = ctx.name.endswith('ne')
    if isinstance(x, Ptr): x = deref(ctx, st, x)
    if isinstance(y, Ptr): y = deref(ctx, st, y)
    r = eqv(ctx, st, x, y)
    if isinstance(r, list): return [(s, NOT(b) if ne else b) for s, b in r]
    return NOT(r) if ne else r
def eqv(ctx, st, x, y):
    if isinstance(x, Sl) or isinstance(y, Sl):
        def sq(z):
            if isinstance(z, Sl):
                b = ctx.e.load(st, z.obj, z.path)
                return [b.get(ADD(z.start, i)) for i in range(z.len)] if not isz(z.len) else None
            return [z.get(i) for i in range(z.n)]
        a, b = sq(x), sq(y)
        if a is None or b is None: raise Unsupported('equality of symbolic slices')
        if len(a) != len(b): return False
        return AND(*[IEEE_EQ(p, q) for p, q in zip(a, b)])
    return IEEE_EQ(x, y)
def IEEE_EQ(x, y):
    if isinstance(x, F): return fcmp('Eq', x, y)
    if isinstance(x, Mat): return AND(*[IEEE_EQ(p, q) for p, q in zip(x.cells, y.cells)])
    if isinstance(x, SeqL) and isinstance(y, SeqL): return AND(x.n == y.n, *[IEEE_EQ(p, q) for p, q in zip(x.items, y.items)])
    return deep_eq(x, y)
@model('PartialOrd::lt', 'PartialOrd::gt', 'PartialOrd::le', 'PartialOrd::ge')
def _ord(ctx, st, args):
    x, y = args
    while isinstance(x, Ptr): x = deref(ctx, st, x)
    while isinstance(y, Ptr): y = deref(ctx, st, y)
    op = ctx.name[-2:].capitalize()
    if isinstance(x, F): return fcmp(op, x, y)
    return {'Lt': lambda: LT(x, y), 'Gt': lambda: LT(y, x), 'Le': lambda: LE(x, y), 'Ge': lambda: LE(y, x)}[op]()
@model('PartialOrd::partial_cmp', 'Ord::cmp', 'f64::total_cmp')
def _cmp(ctx, st, args):
    x, y = args
    while isinstance(x, Ptr): x = deref(ctx, st, x)
    while isinstance(y, Ptr): y = deref(ctx, st, y)
    o = ctx.e.ordering(order(x, y))
    if ctx.name.endswith('partial_cmp'):
        if isinstance(x, F):
            n = OR(x.nan, y.nan)
            if n is False: return En(ctx.dty, 1, {1: (o,)})
            return En(ctx.dty, ITE(n, 0, 1), {0: (), 1: (o,)})
        return En(ctx.dty, 1, {1: (o,)})
    return o
@model('cmp::max', 'cmp::min', 'Ord::max', 'Ord::min')
def _max(ctx, st, args):
    a, b = args
    if isinstance(a, F): return NotImplemented
    return ITE(LE(a, b), b, a) if ctx.name.endswith('max') else ITE(LE(a, b), a, b)
@model('ptr::eq')
def _ptreq(ctx, st, args): return ctx.e.ptr_eq(st, args[0], args[1])
@model('hint::must_use')
def _mu(ctx, st, args): return args[0]
@model('Argument::new_usize')
def _fmt(ctx, st, args): return Opaque('text')

# integers
@model('num::wrapping_add', 'usize::wrapping_add', 'u32::wrapping_add')
def _wadd(ctx, st, args): return ctx.e.wrap(ADD(args[0], args[1]), ctx.dty)
@model('u32::wrapping_mul', 'usize::wrapping_mul')
def _wmul(ctx, st, args): return ctx.e.wrap(MUL(args[0], args[1]), ctx.dty)
def checked(op):
    def f(ctx, st, args):
        v = op(args[0], args[1]); lo, hi = ctx.e.irange(ctx.T_arg0(ctx)) if False else (0, 2 ** 64 - 1)
        T = ctx.e.T[ctx.e.T[ctx.dty]['args'][0]]
        lo, hi = ctx.e.irange(ctx.e.T[ctx.dty]['args'][0])
        ok = AND(LE(lo, v), LE(v, hi)); ok = norm(ok) if isz(ok) else ok
        return [(s, some(ctx, ctx.dty, v) if b else none(ctx.dty)) for s, b in ctx.e.branch(st, [(ok, True), (NOT(ok), False)])]
    return f
for ty in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64'):
    MODELS[ty + '::checked_add'] = checked(ADD); MODELS[ty + '::checked_mul'] = checked(MUL); MODELS[ty + '::checked_sub'] = checked(SUB)
@model('usize::saturating_sub', 'u32::saturating_sub')
def _ssub(ctx, st, args): return SUB_sat(args[0], args[1])
@model('mem::size_of')
def _sizeof(ctx, st, args): return ctx.e.size(ctx.T['args'][0])

# floats
@model('f64::abs')
def _abs(ctx, st, args):
    x = args[0]
    return F(ITE(rle(0, x.v), x.v, rneg(x.v)), x.nan)
@model('f64::clamp')
def _clamp(ctx, st, args):
    x, lo, hi = args
    ctx.panic(st, fcmp('Le', lo, hi), 'clamp bounds')
    v = ITE(rlt(x.v, lo.v), lo.v, ITE(rlt(hi.v, x.v), hi.v, x.v))
    return F(ITE(x.nan, x.v, v), x.nan)
@model('f64::max', 'f64::min')
def _fmax(ctx, st, args):
    a, b = args
    c = rle(a.v, b.v) if ctx.name.endswith('max') else rle(b.v, a.v)
    v = ITE(c, b.v, a.v)
    return F(ITE(a.nan, b.v, ITE(b.nan, a.v, v)), AND(a.nan, b.nan))
@model('f64::is_nan')
def _isnan(ctx, st, args): return args[0].nan
@model('f64::is_finite')
def _isfin(ctx, st, args): return NOT(args[0].nan)
@model('f64::sqrt')
def _sqrt(ctx, st, args):
    x = args[0]
    if not isz(x.v) and x.v == 0: return x
    return F(SQRT(ZR(x.v)), OR(x.nan, rlt(x.v, 0)))
@model('f64::powi')
def _powi(ctx, st, args):
    x, n = args
    if isz(n) or n < 0: raise Unsupported('powi')
    r = fconst(1)
    for _ in range(n): r = fmul(r, x)
    return r
@model('f64::mul_add')
def _mul_add(ctx, st, args): return fadd(fmul(args[0], args[1]), args[2])
def fl(v): return z3.ToInt(ZR(v)) if isz(v) else v.numerator // v.denominator
@model('f64::round')
def _round(ctx, st, args):
    x = args[0]; v = x.v
    up = fl(radd(v, Fraction(1, 2))); dn = fl(radd(rneg(v), Fraction(1, 2)))
    r = ITE(rle(0, v), up, SUB(0, dn))
    return F(z3.ToReal(r) if isz(r) else Fraction(r), x.nan)
@model('f64::floor')
def _floor(ctx, st, args):
    r = fl(args[0].v); return F(z3.ToReal(r) if isz(r) else Fraction(r), args[0].nan)
@model('f64::ceil')
def _ceil(ctx, st, args):
    r = SUB(0, fl(rneg(args[0].v))); return F(z3.ToReal(r) if isz(r) else Fraction(r), args[0].nan)
@model('f64::trunc')
def _trunc(ctx, st, args):
    v = args[0].v; r = ITE(rle(0, v), fl(v), SUB(0, fl(rneg(v))))
    return F(z3.ToReal(r) if isz(r) else Fraction(r), args[0].nan)

class HMapBase(Native): pass
class MView(Native): pass      # defined in nalg
class Img(Native): pass

import nalg      # registers nalgebra, image, sparse and qhull models
import maps
