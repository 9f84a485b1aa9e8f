"""EdgeData::new: every edge of the hull, each with the facets that touch either end.
A list of facets is followed by whether it contains one facet, chosen arbitrarily beforehand."""
from clib import *
import palette, maps, loops
class Has(Native):
    """a list of facets: 1 when the chosen facet is in it, 0 when not"""
    def __init__(self, m): self.m = m
    def fields(self): return (self.m,)
    def rebuild(self, fs): return Has(fs[0])
    def key(self): return 'has'
    n = z3.Int('length of a list')      # as a slice: not followed
class RMap(maps.KMap):
    def same_(self, id, ups): return RMap(self.K, id, ups)
    def rebuild(self, fs): return RMap(self.K, fs[0], [(fs[i], fs[i + 1]) for i in range(1, len(fs), 2)])
    def index(self, c): return Agg(None, [self.K.decode(c), Has(self.val(c))])
    def put(self, c, v): return RMap(self.K, self.id, [u for u in self.ups if not same(u[0], c)] + [(c, v.m if isinstance(v, Has) else v)])
    def loop_adjust(self, S, key, v0, news):
        if key in S.cls: return False
        S.cls[key] = {'t': 'obj', 'v': RMap(v0.K, S.fresh(I, 'map'))}; return True
    def index_op(self, ctx, st, base, i):
        c = self.K.code(deref(ctx, st, i))
        if not ctx.panic(st, self.has(c), 'key not in the map'): return []
        return [(st, Ptr(base.obj, base.path + (('i', c), 1)))]
    def entries(self, ctx, st):
        it = maps.KMap.into_iter(self, ctx, st); return it.a[0].n
class VKeys(maps.Keys):
    """keys made of n vertices of the hull"""
    def __init__(self, e, mk, n):
        self.mk = mk; nm = freshname('key'); self.n = n
        f = lambda s, *a: z3.Function(f'{s}!{nm}', *a)
        self.code_f = f('code', *([I] * (n + 1))); self.part = [f(f'part{k}', I, I) for k in range(n)]
        self.has, self.val, self.size, self.at, self.slot = f('has', I, I, B), f('val', I, I, I), f('size', I, I), f('at', I, I, I), f('slot', I, I, I)
        e.declax[f'code!{nm}'] = lambda t: AND(*[EQ(p(t), t.arg(k)) for k, p in enumerate(self.part)])
        for p in self.part: e.declax[p.name()] = lambda t: EQ(self.code_f(*[q(t.arg(0)) for q in self.part]), t.arg(0))
    def code(self, v):
        vs = [v.get(k) for k in range(2)] if isinstance(v, Seq) else [v]
        if len(vs) != self.n or not all(isinstance(x, Agg) and len(x.f) == 2 for x in vs): raise Unsupported('key')
        return self.code_f(*[Z(x.f[1]) for x in vs])
    def decode(self, c):
        vs = [self.mk(p(Z(c))) for p in self.part]
        return vs[0] if self.n == 1 else SeqL(vs)
class New(palette.Hulls):
    def __init__(self, P):
        palette.Hulls.__init__(self, P); e, p, st = self.e, self.p, self.st
        b = self.b = body1(p, r'palette\.rs\|.*EdgeData.*::new$')
        h = self.h = z3.Int('hull'); self.H = Ptr(e.alloc(st, self.value(h), 'hull')); self.f = z3.Int('chosen facet')
        st.axiom(AND(self.f >= 0, self.f < self.nf(h)))
        fv0 = e.declax['facet_vertex']; g = self.fv
        # facets are simplicial: three different vertices (C12)
        e.declax['facet_vertex'] = lambda t: AND(fv0(t), *[IMP(t.arg(2) != k, g(t.arg(0), t.arg(1), Z(k)) != t) for k in range(3)])
        self.wit = z3.Int('a facet with both ends'); self.c = z3.Int('some edge')
        mk = lambda i: Agg(None, [self.H, i]); self.kv, self.kp = VKeys(e, mk, 1), VKeys(e, mk, 2); self.fro = lambda i: i
        w = z3.Int('@f')
        st.facts = st.facts + (Fact(w, IMP(AND(w >= 0, w < self.nf(h), self.both(w)), AND(self.wit >= 0, self.wit < self.nf(h), self.both(self.wit))), 'a facet with both ends, if there is one'),)
        M = e.models
        M['HashMap::new'] = self.new
        for nm, fn in {'Entry::or_insert': self.orins, 'Vec::push': self.push, 'Extend::extend': self.extend, 'Vec::len': self.len, 'Vec::reserve': self.reserve, 'DerefMut::deref_mut': self.through, 'Deref::deref': self.through,
                   'slice::sort_by_key': self.sort, 'Vec::dedup_by_key': self.dedup, 'Vec::into_boxed_slice': self.boxed, 'HashMap::iter_mut': self.iter_mut,
                   'slice::iter': self.whole, 'Iterator::copied': self.whole, 'Iterator::cloned': self.whole, 'IntoIterator::into_iter': self.whole, 'Clone::clone': self.whole}.items():
            M[nm] = self.over(nm, fn)
        e.quantified.append(self.inv); e.houdini_extra.append(self.known)
    def both(self, f):
        a, b = (self.kp.part[k](self.c) for k in range(2))
        return AND(OR(*[self.fv(Z(self.h), f, Z(k)) == a for k in range(3)]), OR(*[self.fv(Z(self.h), f, Z(k)) == b for k in range(3)]))
    def touch(self, f, v): return OR(*[self.fv(Z(self.h), Z(f), Z(k)) == v for k in range(3)])
    def over(self, nm, fn):
        old = models.MODELS.get(nm)
        def f(ctx, st, args):
            r = fn(ctx, st, args)
            if r is None:
                if old is None: return NotImplemented
                return old(ctx, st, args)
            return r
        return f
    def tgt(self, st, p):
        """the list a reference leads to"""
        while isinstance(p, Ptr):
            v = self.e.load(st, p.obj, p.path)
            if isinstance(v, Has): return p, v
            p = v
        if isinstance(p, Sl) and isinstance(self.e.load(st, p.obj, p.path), Has): return p, self.e.load(st, p.obj, p.path)
        return None, p if isinstance(p, Has) else None
    # --- models
    def new(self, ctx, st, args):
        e = self.e; t = e.T[e.T[ctx.dty]['args'][0]]; s = st.fork()
        pair = t['k'] == 'array' or t['s'].startswith('[')
        K = self.kp if pair else self.kv; i = e.const(s, 'map', I)
        c = z3.Int('@c'); s.facts = s.facts + (Fact(c, NOT(K.has(i, c)), 'empty map'),); s.axiom(EQ(K.size(i), 0))
        return [(s, RMap(K, i))]
    def orins(self, ctx, st, args):
        en = args[0]
        if not isinstance(en, maps.Entry): return None
        m = ctx.e.load(st, en.p.obj, en.p.path)
        if not isinstance(args[1], Seq) or isz(args[1].n) or args[1].n != 0: raise Unsupported('a list that is not empty')
        s = st.fork(); ctx.e.store(s, en.p.obj, en.p.path, m.put(en.j, ITE(m.has(en.j), m.val(en.j), z3.IntVal(0))))
        return [(s, Ptr(en.p.obj, en.p.path + (('i', en.j), 1)))]
    def facet_id(self, st, x):
        x = self.deref(st, x)
        if not isinstance(x, Agg) or len(x.f) != 2: raise Unsupported('facet')
        return x.f[1]
    def push(self, ctx, st, args):
        p, v = self.tgt(st, args[0])
        if v is None: return None
        s = st.fork(); ctx.e.store(s, p.obj, p.path, Has(ITE(EQ(self.facet_id(st, args[1]), self.f), z3.IntVal(1), v.m))); return [(s, Agg(None, []))]
    def extend(self, ctx, st, args):
        p, v = self.tgt(st, args[0])
        if v is None: return None
        _, w = self.tgt(st, args[1])
        if w is None: raise Unsupported('what the list is extended by')
        s = st.fork(); ctx.e.store(s, p.obj, p.path, Has(ITE(EQ(w.m, 1), z3.IntVal(1), v.m))); return [(s, Agg(None, []))]
    def len(self, ctx, st, args):
        _, v = self.tgt(st, args[0])
        if v is None: return None
        s = st.fork(); n = ctx.e.const(s, 'length', I); s.axiom(AND(n >= 0, n <= 2 ** 40)); return [(s, n)]
    def reserve(self, ctx, st, args): return None if self.tgt(st, args[0])[1] is None else [(st, Agg(None, []))]
    def through(self, ctx, st, args):
        p, v = self.tgt(st, args[0]); return None if v is None else [(st, p)]
    def whole(self, ctx, st, args):
        _, v = self.tgt(st, args[0]); return None if v is None else [(st, v)]
    def boxed(self, ctx, st, args): return [(st, args[0])] if isinstance(args[0], Has) else None
    def sort(self, ctx, st, args):
        p, v = self.tgt(st, args[0])
        if v is not None: return [(st, Agg(None, []))]
        q = args[0]
        sl = models.as_slice(ctx, st, q); base = ctx.e.load(st, sl.obj, sl.path)
        if not (isinstance(base, Seq) and same(sl.start, 0) and same(sl.len, base.n)): raise Unsupported('sorting a part')
        s = st.fork(); to, fro = (z3.Function(freshname(x), I, I) for x in ('sorted', 'unsorted')); j = z3.Int('@j')
        for a, b in ((to, fro), (fro, to)): s.facts = s.facts + (Fact(j, IMP(AND(j >= 0, j < Z(base.n)), AND(a(j) >= 0, a(j) < Z(base.n), b(a(j)) == j)), 'sorting rearranges'),)
        self.fro = (lambda old: lambda i: fro(Z(old(i))))(self.fro)
        ctx.e.store(s, sl.obj, sl.path, Seq(base.n, lambda k: base.get(to(Z(k))), ('sym', 'sorted')))
        return [(s, Agg(None, []))]
    def dedup(self, ctx, st, args):
        p, v = self.tgt(st, args[0])
        if v is None: return None
        # only copies of a facet are dropped: what is compared tells facets apart
        x, y = z3.Int('facet x'), z3.Int('facet y'); s = st.fork(); ks = []
        for i in (x, y):
            o = ctx.e.alloc(s, Agg(None, [self.H, i]), 'facet'); outs = ctx.e.call_closure(s, args[1], [Ptr(o)], ctx.fr)
            if len(outs) != 1 or not isz(outs[0][1]): raise Unsupported('key of a facet')
            ks.append(outs[0][1])
        if ctx.e.check([ks[0] == ks[1], x != y], timeout=2000) != 'unsat': raise Unsupported('facets that are taken for equal')
        return [(st, Agg(None, []))]
    def iter_mut(self, ctx, st, args):
        p, m = maps.target(ctx, st, args[0]); s = st.fork(); n = m.entries(ctx, s)
        ref = lambda c, k: Ptr(p.obj, p.path + (('i', c), k)); at = lambda j: m.K.at(Z(m.id), Z(j))
        return [(s, models.It('seq', Seq(n, lambda j: Agg(None, [ref(at(j), 0), ref(at(j), 1)]), ('sym', 'entries')), 0))]
    # --- invariants
    def position(self, st, n):
        out = []
        for v in st.store.values():
            while isinstance(v, models.It) and v.kind == 'map': v = v.a[0]
            if isinstance(v, models.It) and v.kind == 'seq' and same(v.a[0].n, n): out.append(v.a[1])
        return out[0] if len(out) == 1 else None
    def known(self, S, st0, s):
        out = []
        for o, v in s.store.items():
            if isinstance(v, RMap) and v.K is self.kp: out.append(lambda st, o=o: IMP(st.store[o].has(self.c), AND(self.wit >= 0, self.wit < self.nf(self.h), self.both(self.wit))))
        return out
    def inv(self, S, st0, s):
        out = []
        def add(nm, g): g.name = nm; out.append(g)
        mv = [o for o, v in s.store.items() if isinstance(v, RMap) and v.K is self.kv]; mp = [o for o, v in s.store.items() if isinstance(v, RMap) and v.K is self.kp]
        if len(mv) != 1 or len(mp) != 1: return []
        a, b = mv[0], mp[0]; V = lambda st: st.store[a]; E = lambda st: st.store[b]; kv, kp = self.kv, self.kp; nf = self.nf(self.h); f = self.f
        if self.position(s, nf) is not None:
            T = lambda st: Z(self.position(st, nf))
            def v1(st, j, k):
                m = V(st); t = AND(f < T(st), self.touch(f, kv.part[0](j)))
                return AND(EQ(t, AND(m.has(j), EQ(m.val(j), 1))))
            add('the facets of every vertex', v1)
            add('every corner seen is listed', lambda st, j, k: IMP(AND(j >= 0, j < T(st)), AND(*[V(st).has(kv.code_f(self.fv(Z(self.h), j, Z(r)))) for r in range(3)])))
            add('the sides of a facet are edges', lambda st, j, k: IMP(AND(j >= 0, j < T(st)), AND(*[OR(*[E(st).has(c) for c in self.side(j, r)]) for r in range(3)])))
            add('edges have two ends', lambda st, j, k: IMP(E(st).has(j), AND(*[AND(kp.part[d](j) >= 0, kp.part[d](j) < self.nv(self.h)) for d in range(2)], kp.part[0](j) != kp.part[1](j), EQ(E(st).val(j), 0))))
            add('the ends of edges are listed', lambda st, j, k: IMP(E(st).has(j), AND(*[V(st).has(kv.code_f(kp.part[d](j))) for d in range(2)])))
        m0 = st0.store.get(b)
        if isinstance(m0, RMap) and isinstance(S.cls.get((b,), {}).get('v'), RMap) and (a,) not in S.cls:
            n = kp.size(Z(m0.id)); T = lambda st: Z(self.position(st, n))
            touched = lambda st, j, d: (lambda c: AND(V(st).has(c), EQ(V(st).val(c), 1)))(kv.code_f(kp.part[d](j)))
            add('the same edges', lambda st, j, k: EQ(E(st).has(j), m0.has(j)))
            add('the facets of every edge', lambda st, j, k: IMP(m0.has(j), EQ(E(st).val(j), ITE(kp.slot(Z(m0.id), j) < T(st), ITE(OR(touched(st, j, 0), touched(st, j, 1)), z3.IntVal(1), z3.IntVal(0)), m0.val(j)))))
        return out
    def side(self, f, r):
        """the two ways to name side r of facet f"""
        x, y = self.fv(Z(self.h), f, Z(r)), self.fv(Z(self.h), f, Z((r + 1) % 3)); lo, hi = z3.If(x > y, y, x), z3.If(x > y, x, y)
        return [self.kp.code_f(lo, hi), self.kp.code_f(hi, lo)]
    def run(self, P):
        e, p, st = self.e, self.p, self.st
        if not cover(P, e, st, 'EdgeData::new'): raise Unsupported('precondition')
        outs = e.call_body(st, self.b, [self.H])
        if not outs: raise Unsupported('no returning path')
        i, r, w = z3.Int('entry'), z3.Int('facet'), z3.Int('@w')
        for s, v in outs:
            q = v.f[0]; q = e.load(s, q.obj, q.path) if isinstance(q, Ptr) else q
            x = q.get(i); a, b = (Z(x.f[0].get(d).f[1]) for d in range(2)); m = x.f[1]
            if not isinstance(m, Has): raise Unsupported('list of facets')
            t = s.fork(); t.axiom(AND(i >= 0, i < Z(q.n), models.MARK(i)))
            cc = z3.simplify(a).arg(0)
            t.axiom(AND(models.MARK(cc), *[models.MARK(self.kv.code_f(self.kp.part[d](cc))) for d in range(2)]))
            goal(e, t, AND(a >= 0, b >= 0, a < self.nv(self.h), b < self.nv(self.h), a != b), 'an edge has two different ends')
            goal(e, t, EQ(Z(m.m) == 1, OR(self.touch(self.f, a), self.touch(self.f, b))), 'exactly the facets touching either end are listed with an edge')
            u = t.fork(); u.axiom(AND(self.c == cc, models.MARK(self.wit)))
            goal(e, u, AND(self.wit >= 0, self.wit < self.nf(self.h), self.both(self.wit)), 'the ends of an edge are corners of one facet')
            for k in range(3):
                u = s.fork(); u.axiom(AND(r >= 0, r < self.nf(self.h), models.MARK(r))); alt = []
                for c in self.side(r, k):
                    j = self.fro(self.kp.slot(cc.arg(0), c)); u.axiom(AND(models.MARK(c), models.MARK(j))); g = q.get(j)
                    alt.append(AND(j >= 0, j < Z(q.n), EQ(self.kp.code_f(*[Z(g.f[0].get(d).f[1]) for d in range(2)]), c)))
                goal(e, u, OR(*alt), f'side {k} of every facet is an edge')
        discharge(P, e, p.body_id(self.b))
def prove_same(P):
    """vertices of one hull are equal when they are the same vertex: what makes them keys"""
    W = palette.Hulls(P); e, p, st = W.e, W.p, W.st; h = z3.Int('hull'); H = Ptr(e.alloc(st, W.value(h), 'hull'))
    bs = [b for b in body(p, r'convex_hull\.rs\|(.*::)?eq$') if 'Vertex<' in e.T[lty(b, 1)]['s'] and ('Const<3' in b['name'] or 'Const<3' in e.T[lty(b, 1)]['s'])]
    if len(bs) != 1: raise Unsupported(f'{len(bs)} comparisons of vertices')
    x, y = z3.Int('one vertex'), z3.Int('another vertex'); st.axiom(AND(x >= 0, y >= 0, x < W.nv(h), y < W.nv(h)))
    for s, v in e.call_body(st, bs[0], [Ptr(e.alloc(st, Agg(None, [H, i]), 'vertex')) for i in (x, y)]):
        goal(e, s, EQ(v, x == y), 'two vertices are equal when they are the same one')
    discharge(P, e, p.body_id(bs[0]))
def prove_edges(P):
    attempt(P, 'Vertex::eq', 'convex_hull.rs', lambda: prove_same(P))
    attempt(P, 'EdgeData::new', 'palette.rs', lambda: New(P).run(P))
