"""std::collections::HashMap and BTreeMap as a log of (key, value) pairs with distinct keys."""
import z3
from values import *
import models
from models import model, HMapBase, deref, MODELS, It
I = z3.IntSort(); B = z3.BoolSort()
from engine import Fact

class HMap(HMapBase):
    def __init__(self, log): self.log = log
    def fields(self): return (self.log,)
    def rebuild(self, fs): return HMap(fs[0])
    def key(self): return 'map'
    n = property(lambda s: s.log.n)
    def index(self, i): return self.log.get(i)
    def setindex(self, i, v): return HMap(self.log.set(i, v))
    def find(self, ctx, st, key):
        """[(state, slot or None)]"""
        e = ctx.e; n = self.log.n
        if not isz(n) and n == 0: return [(st, None)]
        s = st.fork()
        v = z3.Int(freshname('m'))
        try: kv = self.log.get(v).f[0] if isz(n) or not isinstance(self.log, SeqL) else None
        except Pending as ex:
            ex.seq.need = True
            return [(st, None)]
        if kv is not None:
            for c in witnesses(kv, v, key, self.log):
                g = AND(LE(0, c), LT(c, n), deep_eq(self.log.get(c).f[0], key))
                if g is True or g is not False and e.check(list(st.forms()) + [z3.Not(Z(g))], st.facts, timeout=4000) == 'unsat': return [(st, c)]
        found = e.const(s, 'found', B); j = e.const(s, 'slot', I)
        if kv is None:
            items = self.log.items
            for i, x in enumerate(items): s.axiom(IMP(NOT(found), NOT(deep_eq(x.f[0], key))))
        else: s.facts = s.facts + (Fact(v, IMP(AND(NOT(found), LE(0, v), LT(v, n)), NOT(deep_eq(kv, key))), 'absent'),)
        s.axiom(IMP(found, AND(LE(0, j), LT(j, n), deep_eq(self.log.get(j).f[0], key))))
        a, b = s.fork(), s.fork()
        a.assume(found); b.assume(NOT(found))
        q = self.log
        while isinstance(q, (SeqApp, SeqC)): q = q.base
        grow = q.origin and q.origin[0] == 'grow'      # what a growing map holds is usually open
        fa = grow or e.check(a.forms(), a.facts, timeout=4000) != 'unsat'
        fb = grow or e.check(b.forms(), b.facts, timeout=4000) != 'unsat'
        if fa and fb: return [(a, j), (b, None)]
        # the other case is impossible here: no condition on this path
        if fa: s.axiom(found); return [(s, j)]
        if fb: s.axiom(NOT(found)); return [(s, None)]
        return []
    def index_op(self, ctx, st, base, i):
        key = deref(ctx, st, i); out = []
        for s, j in self.find(ctx, st, key):
            if j is None: ctx.panic(s, False, 'key not in the map')
            else: out.append((s, Ptr(base.obj, base.path + (('i', j), 1))))
        return out
    def iter_refs(self, ctx, st, p): raise Unsupported('iteration over a map')
    def into_iter(self, ctx, st): raise Unsupported('iteration over a map')
def witnesses(kv, v, key, log):
    """slots where the key stored at slot v is syntactically the wanted key"""
    out = []
    def walk(a, b):
        if isz(a) and isz(b):
            if a.eq(b): return
            if a.eq(v): out.append(b); return
            if z3.is_app(a) and log.origin and log.origin[0] == 'cpush':
                q = log.origin[1]
                if a.eq(Z(q.sel(v))): out.append(Z(q.cnt(b))); return
            if z3.is_app(a) and z3.is_app(b) and a.decl().eq(b.decl()):
                for x, y in zip(a.children(), b.children()): walk(x, y)
        elif isinstance(a, F) and isinstance(b, F): walk(a.v, b.v)
        elif isinstance(a, Agg) and isinstance(b, Agg) and len(a.f) == len(b.f): [walk(x, y) for x, y in zip(a.f, b.f)]
        elif isinstance(a, Mat) and isinstance(b, Mat) and a.n == b.n: [walk(x, y) for x, y in zip(a.cells, b.cells)]
        elif isinstance(a, SeqL) and isinstance(b, SeqL) and a.n == b.n: [walk(x, y) for x, y in zip(a.items, b.items)]
    walk(kv, key)
    return out[:3]
class Entry(Native):
    def __init__(self, p, key, j): self.p = p; self.k = key; self.j = j
    def fields(self): return (self.p, self.k)
    def rebuild(self, fs): return Entry(fs[0], fs[1], self.j)
    def key(self): return ('entry', self.j)

class KMap(HMapBase):
    """a map as the set of its keys and a function from keys to values: `id` names the map the updates were made to.
    Keys are numbered (code), a bijection between key values and the integers."""
    def __init__(self, K, id, ups=()): self.K = K; self.id = id; self.ups = tuple(ups)
    def fields(self): return (self.id,) + tuple(x for u in self.ups for x in u)
    def rebuild(self, fs): return KMap(self.K, fs[0], [(fs[i], fs[i + 1]) for i in range(1, len(fs), 2)])
    def key(self): return ('kmap', id(self.K), len(self.ups))
    def has(self, c):
        r = self.K.has(Z(self.id), Z(c))
        for k, _ in self.ups: r = OR(EQ(c, k), r)
        return r
    def val(self, c):
        r = self.K.val(Z(self.id), Z(c))
        for k, v in self.ups: r = ITE(EQ(c, k), v, r)
        return r
    def index(self, c): return Agg(None, [self.K.decode(c), self.val(c)])
    def setindex(self, c, kv): return self.put(c, kv.f[1])
    def put(self, c, v): return KMap(self.K, self.id, [u for u in self.ups if not same(u[0], c)] + [(c, v)])
    def loop_adjust(self, S, key, v0, news):
        if key in S.cls: return False
        S.cls[key] = {'t': 'obj', 'v': KMap(v0.K, S.fresh(z3.IntSort(), 'map'))}
        return True
    n = property(lambda s: s.K.size(Z(s.id)))
    def into_iter(self, ctx, st):
        """every key once, in some order, with its value"""
        if self.ups: raise Unsupported('iteration over a map just updated')
        K = self.K; j = z3.Int('@j'); c = z3.Int('@c'); n = self.n; i = Z(self.id)
        st.axiom(n >= 0)
        st.facts = st.facts + (Fact(j, IMP(AND(LE(0, j), LT(j, n)), AND(self.has(K.at(i, j)), EQ(K.slot(i, K.at(i, j)), j))), 'entries'),
                               Fact(c, IMP(self.has(c), AND(LE(0, K.slot(i, c)), LT(K.slot(i, c), n), EQ(K.at(i, K.slot(i, c)), c))), 'all keys'))
        return It('seq', Seq(n, lambda j: self.index(K.at(i, Z(j))), ('sym', 'entries')), 0)
class Keys:
    """numbering of the keys of a type"""
    def __init__(self, e, shape):
        import loops
        self.shape = shape
        xs = loops.scalars(shape); I = z3.IntSort(); nm = freshname('key')
        ss = [loops.toz(x).sort() for x in xs]
        self.code_f = z3.Function(f'code!{nm}', *ss, I); self.part = [z3.Function(f'part{k}!{nm}', I, s) for k, s in enumerate(ss)]
        self.has = z3.Function(f'has!{nm}', I, I, B); self.val = z3.Function(f'val!{nm}', I, I, I); self.size = z3.Function(f'size!{nm}', I, I)
        self.at = z3.Function(f'at!{nm}', I, I, I); self.slot = z3.Function(f'slot!{nm}', I, I, I)
        e.declax[f'code!{nm}'] = lambda t: AND(*[EQ(p(t), t.arg(k)) for k, p in enumerate(self.part)])
        for p in self.part: e.declax[p.name()] = lambda t: EQ(self.code_f(*[q(t.arg(0)) for q in self.part]), t.arg(0))
    def code(self, v):
        import loops
        return self.code_f(*[loops.toz(x) for x in loops.scalars(v)])
    def decode(self, c):
        import loops
        it = iter(self.part)
        return loops.like(self.shape, lambda s: next(it)(Z(c)))
def maps(*names): return model(*[f'{t}::{n}' for t in ('HashMap', 'BTreeMap') for n in names])
@maps('new', 'with_capacity', 'default')
def _new(ctx, st, args):
    if ctx.e.__dict__.get('keymaps') is not None:
        # the contract asked for maps as functions from keys; what the keys are shows when the first one is put in
        e = ctx.e; s = st.fork(); t = e.T[ctx.dty]['args'][0]
        K = Keys(e, e.symbolic(s, t, 'key')); i = e.const(s, 'map', I)
        c = z3.Int('@c'); s.facts = s.facts + (Fact(c, NOT(K.has(i, c)), 'empty map'),); s.axiom(EQ(K.size(i), 0))
        e.keymaps.append(K)
        return [(s, KMap(K, i))]
    return HMap(SeqL([]))
def target(ctx, st, p):
    while isinstance(p, Ptr):
        v = ctx.e.load(st, p.obj, p.path)
        if isinstance(v, (HMap, KMap)): return p, v
        p = v
    raise Unsupported('map')
def put(ctx, s, p, m, key, val):
    """append a binding for an absent key; -> slot"""
    n = m.log.n
    ctx.e.store(s, p.obj, p.path, HMap(seq_push(m.log, Agg(None, [key, val]))))
    return n
@maps('insert')
def _insert(ctx, st, args):
    p, m = target(ctx, st, args[0]); key, val = args[1], args[2]; res = []
    for s, j in m.find(ctx, st, key):
        s = s.fork()
        if j is None:
            put(ctx, s, p, m, key, val); res.append((s, En(ctx.dty, 0, {0: ()})))
        else:
            old = m.log.get(j)
            ctx.e.store(s, p.obj, p.path, HMap(m.log.set(j, Agg(None, [old.f[0], val]))))
            res.append((s, En(ctx.dty, 1, {1: (old.f[1],)})))
    return res
@maps('get', 'get_mut')
def _get(ctx, st, args):
    p, m = target(ctx, st, args[0]); key = deref(ctx, st, args[1])
    return [(s, En(ctx.dty, 0, {0: ()}) if j is None else En(ctx.dty, 1, {1: (Ptr(p.obj, p.path + (('i', j), 1)),)})) for s, j in m.find(ctx, st, key)]
@maps('contains_key')
def _has(ctx, st, args):
    p, m = target(ctx, st, args[0]); key = deref(ctx, st, args[1])
    return [(s, j is not None) for s, j in m.find(ctx, st, key)]
@maps('len')
def _len(ctx, st, args): return target(ctx, st, args[0])[1].n
@maps('is_empty')
def _empty(ctx, st, args): return EQ(target(ctx, st, args[0])[1].n, 0)
@maps('entry')
def _entry(ctx, st, args):
    p, m = target(ctx, st, args[0])
    if isinstance(m, KMap): return [(st, Entry(p, args[1], m.K.code(args[1])))]
    return [(s, Entry(p, args[1], j)) for s, j in m.find(ctx, st, args[1])]
@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def _orins(ctx, st, args):
    en = args[0]
    if not isinstance(en, Entry): return NotImplemented
    m = ctx.e.load(st, en.p.obj, en.p.path)
    if isinstance(m, KMap):
        if not ctx.name.endswith('or_insert'): raise Unsupported('entry of a map')
        s = st.fork()
        ctx.e.store(s, en.p.obj, en.p.path, m.put(en.j, ITE(m.has(en.j), m.val(en.j), args[1])))
        return [(s, Ptr(en.p.obj, en.p.path + (('i', en.j), 1)))]
    if en.j is not None: return [(st, Ptr(en.p.obj, en.p.path + (('i', en.j), 1)))]
    if ctx.name.endswith('or_insert'): vals = [(st, args[1])]
    elif ctx.name.endswith('or_insert_with'): vals = ctx.e.call_closure(st, args[1], [], ctx.fr)
    else: raise Unsupported('or_default')
    res = []
    for s, v in vals:
        s = s.fork(); _, m = target(ctx, s, en.p)
        j = put(ctx, s, en.p, m, en.k, v)
        res.append((s, Ptr(en.p.obj, en.p.path + (('i', j), 1))))
    return res
